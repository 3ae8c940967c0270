----------------------------- MODULE FocusTimes -----------------------------
(* Delay and sum in the time domain.

   Sample n of the output for focus point g is the sum over the microphones of amp(n, g, m) times the
   signal of m at the time at which sound that left the focus point at sample n reaches m, by linear
   interpolation between samples.  A moving focus point is at its place at sample n.
   Units as in SourceTimes (mm, 64 ticks per sample, 16 mm per tick); delays in 1/1000 sample.     *)
EXTENDS SourceTimes

\* interpolated signal times 1000: x[1..N], n counted from 0, delay D in 1/1000 sample
Interp(x, n, D) == LET i == n + (D \div 1000) + 1
                       f == D % 1000
                        at(k) == IF k > Len(x) THEN 0 ELSE x[k]
                   IN at(i) * (1000 - f) + at(i + 1) * f
\* the delay belongs to the distance (mm) with squared value d2
DelayOK(D, d2) == LET r == (D * 1024) \div 1000
                  IN Sq(r + 3) >= d2 /\ Sq(IF r > 3 THEN r - 3 ELSE 0) <= d2

Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* focus points of a grid that moves along path; with a reference vector the grid turns with the
\* direction of the movement: its x axis points along dir (of length ld), its y axis along rvec x dir
\* (of length ly), its z axis completes the right-handed frame; the axes keep their lengths
Turn(g, dir, rvec, ld, ly) ==
  IF rvec = <<0, 0, 0>> THEN g
  ELSE LET ex == dir
           ey == Cross(rvec, ex)
           ez == Cross(ex, ey)
       IN [k \in 1..3 |-> (((ex[k] * g[1]) * ly) + ((ey[k] * g[2]) * ld) + (ez[k] * g[3])) \div (ld * ly)]
Len2Of(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Frame(q) == q.rvec = <<0, 0, 0>> \/ (Len2Of(q.dir) = q.ld * q.ld /\ Len2Of(Cross(q.rvec, q.dir)) = q.ly * q.ly)
Add(a, b) == [k \in 1..3 |-> a[k] + b[k]]
FocusAt(q, g, n) == Add(Turn(q.grid[g], q.dir, q.rvec, q.ld, q.ly), At(q.path, 64 * n))

\* amplitudes a (times 10000) of the microphones for the distances r (1/1000 samples times c), r0 to the
\* reference; the laws are the normalisations that name the steering vectors
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* sum of a_m r0 / r_m: the level of a source of unit strength at the reference distance
Level(a, r, r0) == SumSeq([m \in 1..Len(a) |-> (a[m] * (r0 \div 4)) \div (r[m] \div 4)])
Near(x, y, d) == Abs(x - y) <= d
AmpOK(type, a, r, r0) ==
  LET M == Len(a) IN
  CASE type = "classic" -> \A m \in 1..M : Near(a[m] * M, 10000, M)
    [] type = "inverse" -> \A m \in 1..M : Near((a[m] * (r0 \div 4)) \div (r[m] \div 4), 10000 \div M, 10000 \div (50 * M))
    [] type = "true level" -> /\ \A m \in 1..M : Near((a[m] * (r[m] \div 4)) \div 1000, (a[1] * (r[1] \div 4)) \div 1000, 20 + (a[1] * (r[1] \div 4)) \div 50000)
                              /\ Near(Level(a, r, r0), 10000, 150)
    [] type = "true location" -> /\ \A m \in 1..M : Near((a[m] * (r[m] \div 4)) \div 1000, (a[1] * (r[1] \div 4)) \div 1000, 20 + (a[1] * (r[1] \div 4)) \div 50000)
                                 /\ Near((M * SumSeq([m \in 1..M |-> Sq(a[m])])) \div 10000, 10000, 100)
=============================================================================
