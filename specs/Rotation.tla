------------------------------ MODULE Rotation ------------------------------
(* A wheel that turns with constant speed and gives a signal P times per revolution, every K samples, first at
   sample A; and a ring of N microphones that is read at places which turn with the wheel.             *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Round(a, b) == (a + (b \div 2)) \div b
\* angle at sample n in units of a revolution / (P K), counted from the start angle: in the direction D
Angle(D, K, A, n) == D * (n - A)
\* revolutions per minute times P K for the sample frequency fs
Rpm(fs) == 60 * fs
\* linear interpolation between the microphones of a ring (values v[1], ..., v[N]) at the place x / m of
\* the way from one microphone to the next, counted from the first one; times m
Ring(v, x, m) == LET N == Len(v) j == (x \div m) % N f == x % m
                 IN v[j + 1] * (m - f) + v[((j + 1) % N) + 1] * f
=============================================================================
