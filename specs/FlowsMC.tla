------------------------------ MODULE FlowsMC ------------------------------
EXTENDS Flows
CONSTANTS Mach, Omega, Places
VARIABLES f, g, p
Init == /\ f \in [m : {<<a, 0, b>> : a, b \in Mach \cup {-x : x \in Mach}}, w : Omega \cup {-x : x \in Omega}, o : {<<0, 0, 0>>, <<100, -50, 0>>}]
        /\ g \in {<<x, y, 900>> : x, y \in Places} /\ p \in {<<x, y, 0>> : x, y \in Places}
Spec == Init /\ [][FALSE]_<<f, g, p>>
Near(a, b, e) == Abs(a - b) <= e
Rotation == \A a \in {0, 100, 300, -500, 700} : /\ Near(Sq(Cos(a)) + Sq(Sin(a)), 1000000, 5000)
                                               /\ Near(D2(Turn(p, a), <<0, 0, 0>>), D2(p, <<0, 0, 0>>), 5 + D2(p, <<0, 0, 0>>) \div 100)
\* at rest the distance is the distance; nothing turns on the axis
Rest == (f.w = 0 /\ f.m = <<0, 0, 0>>) => Back(f, p, 1000) = p
Axis == Near(D2(Back([f EXCEPT !.m = <<0, 0, 0>>], f.o, 1000), f.o), 0, 3)
\* with the wind sound is faster
Rs == {100 * i : i \in 1..60}
Wind == (f.w = 0 /\ f.m[3] # 0 /\ f.m[1] = 0) =>
        LET lo == {r \in Rs : D2(g, Back(f, p, r)) <= r * r} IN
        (lo # {} /\ D2(g, p) <= 9000000) => \A r \in lo : \A s \in Rs : s >= r => s \in lo
=============================================================================
