----------------------------- MODULE MetricsMC -----------------------------
(* all placements of up to three targets on a small plane *)
EXTENDS Metrics
CONSTANTS Size, Radii, NT
Plane == [k \in 1..((Size + 1) * (Size + 1)) |-> <<2 * ((k - 1) \div (Size + 1)), 2 * ((k - 1) % (Size + 1)), 0>>]
VARIABLES m
Init == \E n \in 1..NT : \E tt \in [1..n -> {<<x, y, z>> : x \in {0, 1, 3}, y \in {0, 2, 3}, z \in {0, 4}}] :
          \E r \in Radii, ad \in BOOLEAN, mu \in BOOLEAN, bo \in BOOLEAN, ne \in BOOLEAN :
            m = [points |-> Plane, targets |-> tt, r |-> r, adaptive |-> ad, multi |-> mu, border |-> bo, nearest |-> ne]
Spec == Init /\ [][FALSE]_m
d == [k \in 1..Len(Plane) |-> k * k]
All == Sum(d, 1..Len(Plane))
\* nothing is found twice without multiple assignment
NoExcess == ~m.multi => \A s \in Found(m, d) : Total(s) <= All
\* with adaptive areas, targets in one plane and without borders nothing is found twice anyway
Apart == (m.adaptive /\ ~m.border /\ ~m.nearest /\ \A i, j \in 1..Len(m.targets) : m.targets[i] # m.targets[j] \/ i = j)
         /\ (\A i \in 1..Len(m.targets) : m.targets[i][3] = 0)
         => Found(m, d) = Found([m EXCEPT !.multi = ~m.multi], d)
\* the first target has everything in its area
First == \A s \in Found(m, d) : s[1] \in {Sum(d, a) : a \in Areas(m, 1)}
=============================================================================
