------------------------------- MODULE Paths -------------------------------
(* Paths through given points and arrays of microphones, in integers.  Times in quarters, places times 64. *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
\* a path is a polynomial <<c0, c1, c2, c3>>: one for each direction
Place(c, k) == 64 * c[1] + 16 * c[2] * k + 4 * c[3] * k * k + c[4] * k * k * k
Speed(c, k) == 64 * c[2] + 32 * c[3] * k + 12 * c[4] * k * k
Accel(c, k) == 128 * c[3] + 96 * c[4] * k
Der(c, k, d) == IF d = 0 THEN Place(c, k) ELSE IF d = 1 THEN Speed(c, k) ELSE Accel(c, k)
\* degree that a path through n points can have
Degree(n) == IF n > 3 THEN 3 ELSE n - 1
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* times from a to before b in steps of s
Times(a, b, s) == [i \in 1..(IF b > a THEN (b - a + s - 1) \div s ELSE 0) |-> a + (i - 1) * s]
\* ---- arrays: positions of the valid microphones
Valid(m) == {i \in 1..Len(m.pos) : ~\E j \in 1..Len(m.inv) : m.inv[j] = i}
RECURSIVE Sum(_, _, _)
Sum(pos, K, d) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN pos[k][d] + Sum(pos, K \ {k}, d)
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
Aperture2(m) == Max({D2(m.pos[i], m.pos[j]) : i, j \in Valid(m)})
=============================================================================
