------------------------------- MODULE Flows -------------------------------
(* Sound in moving air. In air that moves as a rigid body sound spreads in circles around a place that moves
   with the air: what is heard at m after the time r / c was emitted at a place g with |g - Back(m, r)| = r, where
   Back(m, r) is where the air that is at m now was at the time of emission.  Lengths in millimetres,
   velocities in thousandths of the speed of sound, angles in thousandths.                       *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x
Round(a, b) == (a + (b \div 2)) \div b
Cos(a) == 1000 - Round(a * a, 2000) + Round(Round(a * a, 1000) * Round(a * a, 1000), 24000)
Sin(a) == a - Round(Round(a * a, 1000) * a, 6000)
\* turned by a around the z axis
Turn(p, a) == <<Round(p[1] * Cos(a) - p[2] * Sin(a), 1000), Round(p[1] * Sin(a) + p[2] * Cos(a), 1000), p[3]>>
\* the air moves with f.m everywhere and turns by f.w thousandths per metre of the way of sound around the z axis through f.o
Back(f, p, r) == LET q == [i \in 1..3 |-> p[i] - f.o[i] - Round(f.m[i] * r, 1000)]
                     u == Turn(q, -Round(f.w * r, 1000))
                 IN [i \in 1..3 |-> u[i] + f.o[i]]
D2(p, q) == Sq(p[1] - q[1]) + Sq(p[2] - q[2]) + Sq(p[3] - q[3])
\* a relative error of the distance is twice that in its square
Heard(f, g, p, r, tol) == Abs(D2(g, Back(f, p, r)) - r * r) <= (r * r) \div tol
\* velocity of rigidly turning air with speed f.w and f.v along the axis, at p (from the centre)
Spin(w, v, p) == <<-w * p[2], w * p[1], v>>
=============================================================================
