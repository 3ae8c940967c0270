------------------------------ MODULE PathsMC ------------------------------
EXTENDS Paths
CONSTANTS C, Kmax, Coord
VARIABLES c, k, m
Pos == {<<x, y, 0>> : x, y \in Coord}
Init == /\ c \in [1..4 -> {0} \cup C \cup {-x : x \in C}] /\ k \in 0..Kmax
        /\ m = [pos |-> << <<0, 0, 0>> >>, inv |-> <<>>]
Init2 == /\ c = <<0, 0, 0, 0>> /\ k = 0
         /\ \E n \in 2..3 : \E p \in [1..n -> Pos] : \E i \in 0..n : m = [pos |-> p, inv |-> IF i = 0 THEN <<>> ELSE <<i>>]
Spec == (Init \/ Init2) /\ [][FALSE]_<<c, k, m>>
K(i) == k + i - 2
\* four points decide a path
Cubic == Place(c, K(0)) - 4 * Place(c, K(1)) + 6 * Place(c, K(2)) - 4 * Place(c, K(3)) + Place(c, K(4)) = 0
\* the way is the integral of the speed, the speed that of the acceleration (steps of a quarter)
Way == 12 * (Place(c, K(2)) - Place(c, K(0))) = Speed(c, K(0)) + 4 * Speed(c, K(1)) + Speed(c, K(2))
Faster == 8 * (Speed(c, K(1)) - Speed(c, K(0))) = Accel(c, K(0)) + Accel(c, K(1))
\* no microphone is further from the centre than the aperture
Inside == LET v == Valid(m) n == Cardinality(v) IN
  \A i \in v : Sq(n * m.pos[i][1] - Sum(m.pos, v, 1)) + Sq(n * m.pos[i][2] - Sum(m.pos, v, 2)) <= Sq(n) * Aperture2(m)
=============================================================================
