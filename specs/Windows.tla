------------------------------ MODULE Windows ------------------------------
(* Processing in (overlapping) windows: which rows window k consists of, how many windows a signal has,
   the spectra of a window at the frequency bins 0, bs/4 and bs/2 (where the transform has Gaussian
   integer coefficients), cross spectra, the cross spectral matrix, and the blocks of a sample buffer. *)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* halving the sum keeps the recursion shallow
RECURSIVE SumR(_, _, _)
SumR(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a]
                 ELSE LET m == (a + b) \div 2 IN SumR(f, a, m) + SumR(f, m + 1, b)

\* window k = 0, 1, ... starts at floor(k * bs / ov)
Start(k, bs, ov) == (k * bs) \div ov
Count(n, bs, ov) == IF n < bs THEN 0 ELSE ((n - bs) * ov) \div bs + 1
Win(x, k, bs, ov) == SubSeq(x, Start(k, bs, ov) + 1, Start(k, bs, ov) + bs)

\* (-i)^m as <<re, im>>
Rot(m) == CASE m % 4 = 0 -> <<1, 0>> [] m % 4 = 1 -> <<0, -1>> [] m % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, 1>>
\* bins: step 0 (mean), 1 (a quarter of the sampling frequency), 2 (Nyquist)
DFT(w, step, ch) ==
  LET n == Len(w)
      f == [m \in 1..n |-> LET r == Rot(step * (m - 1)) IN <<r[1] * w[m][ch], r[2] * w[m][ch]>>] IN
  <<SumR([m \in 1..n |-> f[m][1]], 1, n), SumR([m \in 1..n |-> f[m][2]], 1, n)>>

Bins == 0..2
\* one sided amplitudes: everything but mean and Nyquist twice
OneSided(step, sided) == IF sided /\ step = 1 THEN 2 ELSE 1
Spectrum(w, sided) == [b \in 1..3 |-> [c \in 1..Len(w[1]) |->
                        LET d == DFT(w, b - 1, c) IN <<OneSided(b - 1, sided) * d[1], OneSided(b - 1, sided) * d[2]>>]]
Spectra(x, bs, ov, sided) == [k \in 1..Count(Len(x), bs, ov) |-> Spectrum(Win(x, k - 1, bs, ov), sided)]

\* a * conj(b)
CMul(a, b) == <<a[1] * b[1] + a[2] * b[2], a[2] * b[1] - a[1] * b[2]>>
Cross(s) == [b \in 1..3 |-> [i \in 1..Len(s[b]) |-> [j \in 1..Len(s[b]) |-> CMul(s[b][i], s[b][j])]]]
\* pairs in the order of a flattened matrix
CrossFlat(s, mode) ==
  [b \in 1..3 |-> LET n == Len(s[b])
     all == [p \in 1..(n * n) |-> <<((p - 1) \div n) + 1, ((p - 1) % n) + 1>>]
     sel == SelectSeq(all, LAMBDA p : mode = "full" \/ (mode = "upper" /\ p[1] <= p[2]) \/ (mode = "lower" /\ p[1] >= p[2]))
   IN [p \in 1..Len(sel) |-> CMul(s[b][sel[p][1]], s[b][sel[p][2]])]]
Power(s) == [b \in 1..3 |-> [i \in 1..Len(s[b]) |-> s[b][i][1] * s[b][i][1] + s[b][i][2] * s[b][i][2]]]

\* the number of windows times the cross spectral matrix
CSMSum(x, bs, ov) ==
  LET sp == Spectra(x, bs, ov, FALSE) n == Len(sp) c == Len(x[1]) cr == [k \in 1..n |-> Cross(sp[k])] IN
  [b \in 1..3 |-> [i \in 1..c |-> [j \in 1..c |->
     <<SumR([k \in 1..n |-> cr[k][b][i][j][1]], 1, n), SumR([k \in 1..n |-> cr[k][b][i][j][2]], 1, n)>>]]]

\* an impulse at row r (from 0) is weighted with the window function w in every window it lies in
Impulse(n, r, w, bs, ov) == [k \in 1..Count(n, bs, ov) |->
   LET p == r - Start(k - 1, bs, ov) IN IF p >= 0 /\ p < bs THEN w[p + 1] ELSE 0]

\* every full window transformed back
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Back(x, bs, ov) == Concat([k \in 1..Count(Len(x), bs, ov) |-> Win(x, k - 1, bs, ov)])

\* blocks of a sample buffer: rnum rows each, shift rows apart, shorter at the end of the data
Blocks(n, rnum, shift) == [k \in 1..((n + shift - 1) \div shift) |->
   [i \in 1..(Min((k - 1) * shift + rnum, n) - (k - 1) * shift) |-> (k - 1) * shift + i]]
=============================================================================
