------------------------------ MODULE Metrics ------------------------------
(* Levels of sources found in a map against the true ones: every target collects what the map has in its
   circle (shrunk to half the distance of the nearest other target if adaptive); without multiple assignment
   what was collected is gone for the targets that follow.  Integer coordinates and powers.          *)
EXTENDS Regions
D3(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
\* four times the square of the radius
Diam2(m, i) == LET d == {D3(m.targets[i], m.targets[j]) : j \in 1..Len(m.targets)} \ {0}
               IN IF m.adaptive THEN MinOf(d \cup {4 * Sq(m.r)}) ELSE 4 * Sq(m.r)
Off2(p, t) == 4 * (Sq(p[1] - t[1]) + Sq(p[2] - t[2]))
Inner(m, i) == {k \in 1..Len(m.points) : IF m.border THEN Off2(m.points[k], m.targets[i]) <= Diam2(m, i)
                                         ELSE Off2(m.points[k], m.targets[i]) < Diam2(m, i)}
Closest(m, i) == {k \in 1..Len(m.points) : \A j \in 1..Len(m.points) : Off2(m.points[k], m.targets[i]) <= Off2(m.points[j], m.targets[i])}
\* the sets of points that target i may stand for
Areas(m, i) == IF Inner(m, i) # {} THEN {Inner(m, i)} ELSE IF ~m.nearest THEN {{}} ELSE {{k} : k \in Closest(m, i)}
RECURSIVE Sum(_, _)
Sum(d, K) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN d[k] + Sum(d, K \ {k})
\* all possible sequences of levels of the targets from i on, when the points R are left
RECURSIVE Levels(_, _, _, _)
Levels(m, d, i, R) ==
  IF i > Len(m.targets) THEN {<<>>}
  ELSE UNION {{<<Sum(d, a \cap R)>> \o rest : rest \in Levels(m, d, i + 1, IF m.multi THEN R ELSE R \ a)} : a \in Areas(m, i)}
Found(m, d) == Levels(m, d, 1, 1..Len(m.points))
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
=============================================================================
