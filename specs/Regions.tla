------------------------------ MODULE Regions ------------------------------
(* Grids and sectors in integer coordinates.

   A grid is a sequence of points with a shape; the point with the multi-index i is the point number
   Flat(i) in row-major order.  A sector selects points; a region that selects nothing selects the
   nearest point to its centre when it is told to.                                                *)
EXTENDS Integers, Sequences, FiniteSets

Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x

\* ---- grids ------------------------------------------------------------------------------------
\* rectangular grids: axis k has Steps(k) points lo, lo + inc, ...
Axis(a) == [i \in 1..((a.hi - a.lo) \div a.inc + 1) |-> a.lo + (i - 1) * a.inc]
Steps(a) == (a.hi - a.lo) \div a.inc + 1
\* row-major: the last axis runs fastest
Rect(x, y) == [p \in 1..(Steps(x) * Steps(y)) |->
                <<Axis(x)[(p - 1) \div Steps(y) + 1], Axis(y)[((p - 1) % Steps(y)) + 1]>>]
Rect3(x, y, z) == [p \in 1..(Steps(x) * Steps(y) * Steps(z)) |->
                <<Axis(x)[((p - 1) \div Steps(z)) \div Steps(y) + 1],
                  Axis(y)[(((p - 1) \div Steps(z)) % Steps(y)) + 1],
                  Axis(z)[((p - 1) % Steps(z)) + 1]>>]
\* number of the point on axis a that is nearest to v (no ties)
Nearest(a, v) == CHOOSE i \in 0..(Steps(a) - 1) : \A j \in 0..(Steps(a) - 1) :
                   Abs(v - (a.lo + i * a.inc)) <= Abs(v - (a.lo + j * a.inc))
Line(loc, dir, step, n) == [p \in 1..n |-> [k \in 1..3 |-> loc[k] + (p - 1) * step * dir[k]]]
\* merged grids: every point once, in lexicographic order
Less(p, q) == \/ p[1] < q[1]
              \/ p[1] = q[1] /\ p[2] < q[2]
              \/ p[1] = q[1] /\ p[2] = q[2] /\ p[3] < q[3]
Ordered(s) == \A i \in 1..(Len(s) - 1) : Less(s[i], s[i + 1])
Elems(s) == {s[i] : i \in 1..Len(s)}

\* ---- sectors ------------------------------------------------------------------------------------
Between(v, a, b) == (IF a < b THEN a ELSE b) <= v /\ v <= (IF a < b THEN b ELSE a)
Strict(v, a, b)  == (IF a < b THEN a ELSE b) < v /\ v < (IF a < b THEN b ELSE a)
InRect(s, p) == IF s.border THEN Between(p[1], s.x1, s.x2) /\ Between(p[2], s.y1, s.y2)
                ELSE Strict(p[1], s.x1, s.x2) /\ Strict(p[2], s.y1, s.y2)
InBox(s, p) == InRect(s, p) /\ IF s.border THEN Between(p[3], s.z1, s.z2) ELSE Strict(p[3], s.z1, s.z2)
InCirc(s, p) == IF s.border THEN Sq(p[1] - s.x) + Sq(p[2] - s.y) <= Sq(s.r) ELSE Sq(p[1] - s.x) + Sq(p[2] - s.y) < Sq(s.r)
\* polygons e = <<x1, y1, x2, y2, ...>>
NV(e) == Len(e) \div 2
V(e, i) == LET k == ((i - 1) % NV(e)) + 1 IN <<e[2 * k - 1], e[2 * k]>>
Cross2(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
OnSide(e, i, p) == LET a == V(e, i) b == V(e, i + 1) IN
                   Cross2(a, b, p) = 0 /\ Between(p[1], a[1], b[1]) /\ Between(p[2], a[2], b[2])
OnBorder(e, p) == \E i \in 1..NV(e) : OnSide(e, i, p)
\* crossing number of the ray to the right
Crosses(e, i, p) == LET a == V(e, i) b == V(e, i + 1) IN
                    /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ IF b[2] > a[2] THEN Cross2(a, b, p) > 0 ELSE Cross2(a, b, p) < 0
InPoly(s, p) == IF OnBorder(s.e, p) THEN s.border
                ELSE Cardinality({i \in 1..NV(s.e) : Crosses(s.e, i, p)}) % 2 = 1
\* convex hull: not outside of a line through two corners that has all corners on one side
Facets(e) == {<<i, j>> \in (1..NV(e)) \X (1..NV(e)) : V(e, i) # V(e, j) /\ \A k \in 1..NV(e) : Cross2(V(e, i), V(e, j), V(e, k)) >= 0}
InHull(s, p) == \A f \in Facets(s.e) : IF s.border THEN Cross2(V(s.e, f[1]), V(s.e, f[2]), p) >= 0
                                        ELSE Cross2(V(s.e, f[1]), V(s.e, f[2]), p) > 0
Inside(s, p) == CASE s.kind = "rect" -> InRect(s, p)
                  [] s.kind = "box" -> InBox(s, p)
                  [] s.kind = "circ" -> InCirc(s, p)
                  [] s.kind = "poly" -> InPoly(s, p)
                  [] s.kind = "hull" -> InHull(s, p)
                  [] s.kind = "all" -> TRUE
RECURSIVE SumXY(_, _, _)
SumXY(e, k, i) == IF i = 0 THEN 0 ELSE e[2 * i - 2 + k] + SumXY(e, k, i - 1)
\* n times the centre <<x, y, z, n>>
Center(s) == CASE s.kind = "rect" -> <<s.x1 + s.x2, s.y1 + s.y2, 0, 2>>
               [] s.kind = "box" -> <<s.x1 + s.x2, s.y1 + s.y2, s.z1 + s.z2, 2>>
               [] s.kind = "circ" -> <<s.x, s.y, 0, 1>>
               [] s.kind \in {"poly", "hull"} -> <<SumXY(s.e, 1, NV(s.e)), SumXY(s.e, 2, NV(s.e)), 0, NV(s.e)>>
CDist(s, p) == LET c == Center(s) IN
               Sq(c[4] * p[1] - c[1]) + Sq(c[4] * p[2] - c[2]) + (IF s.kind = "box" THEN Sq(c[4] * p[3] - c[3]) ELSE 0)
In(s, pts) == {i \in 1..Len(pts) : Inside(s, pts[i])}
\* the selections that a sector may make: the points inside, or one nearest to the centre
Selections(s, pts) == IF In(s, pts) # {} \/ s.kind = "all" THEN {In(s, pts)}
                      ELSE IF ~s.nearest THEN {{}}
                      ELSE {{i} : i \in {j \in 1..Len(pts) : \A k \in 1..Len(pts) : CDist(s, pts[j]) <= CDist(s, pts[k])}}
\* several sectors: the union of one selection of each
RECURSIVE Unions(_, _)
Unions(ss, pts) == IF ss = <<>> THEN {{}}
                   ELSE {a \cup b : a \in Selections(Head(ss), pts), b \in Unions(Tail(ss), pts)}
=============================================================================
