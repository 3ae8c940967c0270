------------------------------- MODULE Filters -------------------------------
(* Band filters, frequency weightings and time weightings by their responses, in integers.
   A band filter of order n is a Butterworth filter whose power bandwidth is that of the band: with the
   frequency f = f0 p / q and y = c(n) |p / q - q / p| / (2^(1 / 2F) - 2^(-1 / 2F)) its gain is
   1 / sqrt(1 + y^2n), where c(n) = (pi / 2n) / sin(pi / 2n).                                        *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Round(a, b) == (a + (b \div 2)) \div b
\* in ten-thousandths: band widths of octave and third octave, and c(n)
Width(F) == IF F = 1 THEN 7071 ELSE 2316
C(n) == <<15708, 11107, 10472, 10262, 10166, 10115>>[n]
Y(F, n, p, q) == LET r == Round(Abs(p * p - q * q) * 10000, p * q) IN IF r > 60000 THEN 90000 ELSE Round(r * C(n), Width(F))
RECURSIVE Pow(_, _)
Pow(y, k) == IF k = 0 THEN 10000 ELSE LET r == Pow(y, k - 1) IN IF r > 50000 \/ y > 30000 THEN 60000 ELSE Round(r * y, 10000)
\* ten-thousandths of the square of the gain; exact down to a sixth
Gain2(F, n, p, q) == Round(100000000, 10000 + Pow(Y(F, n, p, q), 2 * n))
Small == 1667
\* ---- weightings: tenths of dB at 10^(k / 10) Hz, k = 13 .. 40 (IEC 61672)
A == <<-505, -447, -394, -346, -302, -262, -225, -191, -161, -134, -109, -86, -66, -48, -32, -19, -8, 0, 6, 10, 12, 13, 12, 10, 5, -1, -11, -25>>
CW == <<-62, -44, -30, -20, -13, -8, -5, -3, -2, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, -2, -3, -5, -8, -13, -20, -30, -44>>
Weight(w, k) == IF w = "A" THEN A[k - 12] ELSE IF w = "C" THEN CW[k - 12] ELSE 0
\* ---- averages: what a step has grown to after k eighths of the time constant, in millionths
Step == <<0, 117503, 221199, 312711, 393469, 464739, 527633, 583138, 632121, 675348, 713495, 747160, 776870, 803088, 826226, 846645, 864665>>
\* ---- filter banks: numbers of the bands
Bands(lo, hi, F) == LET d == 4 - F IN [i \in 1..(IF hi > lo THEN (hi - lo + d - 1) \div d ELSE 0) |-> lo + (i - 1) * d]
=============================================================================
