------------------------------ MODULE Signals ------------------------------
(* What the values of a generated signal are, sample by sample. *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
\* 10^6 times the sine of k * 30 degrees
SineTable == <<0, 500000, 866025, 1000000, 866025, 500000, 0, -500000, -866025, -1000000, -866025, -500000>>
Sine(k) == SineTable[(k % 12) + 1]
\* a signal of n samples from a recording x: looped or continued with zeros (samples from 1)
Looped(x, n, loop) == [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE IF loop THEN x[((i - 1) % Len(x)) + 1] ELSE 0]
\* the same, put together from blocks as they are read
RECURSIVE Track(_, _, _, _)
Track(x, n, b, t) ==    \* t: what was put together so far
  IF Len(t) >= n THEN SubSeq(t, 1, n)
  ELSE IF Len(t) >= Len(x) THEN t
  ELSE Track(x, n, b, t \o SubSeq(x, Len(t) + 1, IF Len(t) + b < Len(x) THEN Len(t) + b ELSE Len(x)))
RECURSIVE Repeat(_, _)
Repeat(t, n) == IF Len(t) >= n THEN SubSeq(t, 1, n) ELSE Repeat(t \o t, n)
RECURSIVE Zeros(_, _)
Zeros(t, n) == IF Len(t) >= n THEN t ELSE Zeros(Append(t, 0), n)
Built(x, n, b, loop) == LET t == Track(x, n, b, <<>>) IN IF loop THEN Repeat(t, n) ELSE Zeros(t, n)
\* sum of c[j] * x[n - j] for the coefficients j = 0, 1, ...
RECURSIVE Dot(_, _, _, _)
Dot(c, x, n, j) == IF j = Len(c) THEN 0 ELSE (IF n - j >= 1 /\ n - j <= Len(x) THEN c[j + 1] * x[n - j] ELSE 0) + Dot(c, x, n, j + 1)
=============================================================================
