---------------------------- MODULE SourceTimes ----------------------------
(* Sound of point sources at microphones.

   Units: 64 ticks per sample, lengths in mm, the speed of sound is 16 mm per tick.  A source emits
   step i of its (upsampled) signal at time start_t + i * 64 / up ticks; every step travels as a
   spherical front with the speed of sound.  At the time of sample n, start + 64 * n ticks, a microphone
   hears the step whose front arrived last, with the amplitude divided by the distance between the
   microphone and the place where the front was emitted.                                            *)
EXTENDS Integers, Sequences

C == 16
Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
\* position at time tau (ticks): path[k] = <<x, v, a>> for the three coordinates: x + v tau + a tau^2 / 4096
At(path, tau) == [k \in 1..3 |-> path[k][1] + path[k][2] * tau + (path[k][3] * tau * tau) \div 4096]
Dist2(p, m) == Sq(p[1] - m[1]) + Sq(p[2] - m[2]) + Sq(p[3] - m[3])
\* the front emitted at tau has reached m at time t
\* (no microphone is further than 1500 ticks of travel from the source)
Arrived(path, m, tau, t) == /\ t >= tau
                            /\ IF t - tau > 1600 THEN TRUE ELSE Dist2(At(path, tau), m) <= Sq(C * (t - tau))
\* half the distance between two steps, and the tolerance, in ticks times two
\* step i is heard at t: its front is the nearest in time (rounding to the nearest step, to a tick)
EmitTime2(q, i) == 2 * q.start_t + ((2 * i) * 64) \div q.up        \* twice the emission time of step i
Lo(q, i) == (EmitTime2(q, i) - 64 \div q.up) \div 2 - 1
Hi(q, i) == (EmitTime2(q, i) + 64 \div q.up) \div 2 + 1
Heard(q, m, i, t) == Arrived(q.path, m, Lo(q, i), t) /\ ~Arrived(q.path, m, Hi(q, i) + 1, t)
SoundTime(q, n) == q.start + 64 * n
\* amplitude: distance r in mm to the place of emission, known up to the rounding to steps
DistOK(q, m, i, r, d) ==
  LET a == Dist2(At(q.path, Lo(q, i)), m)
      b == Dist2(At(q.path, Hi(q, i)), m)
      lo == IF a < b THEN a ELSE b
      hi == IF a < b THEN b ELSE a
  IN Sq(r + d) >= lo /\ Sq(IF r > d THEN r - d ELSE 0) <= hi
\* the first step has not arrived yet
Silent(q, m, t) == ~Arrived(q.path, m, q.start_t, t)
=============================================================================
