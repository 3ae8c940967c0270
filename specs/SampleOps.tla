----------------------------- MODULE SampleOps -----------------------------
(* The elementary sample operators as functions on integer matrices (sequence of rows, a row is
   the sequence of channel values).  Averages are given multiplied by their divisor.          *)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

NCh(x) == IF x = <<>> THEN 0 ELSE Len(x[1])
Map2(n, c, f(_, _)) == [i \in 1..n |-> [j \in 1..c |-> f(i, j)]]

\* sum of several sources, as long as the shortest, each times its weight
RECURSIVE MinLen(_)
MinLen(xs) == IF Len(xs) = 1 THEN Len(xs[1]) ELSE Min(Len(xs[1]), MinLen(Tail(xs)))
Mix(xs, w) == Map2(MinLen(xs), NCh(xs[1]), LAMBDA i, j : SumSeq([k \in 1..Len(xs) |-> w[k] * xs[k][i][j]]))

\* k * mean of every full group of k rows
AvgSum(x, k) == Map2(Len(x) \div k, NCh(x), LAMBDA i, j : SumSeq([m \in 1..k |-> x[(i - 1) * k + m][j]]))

Power(x) == Map2(Len(x), NCh(x), LAMBDA i, j : x[i][j] * x[i][j])

\* i * cumulative average at row i
CumSum(x) == Map2(Len(x), NCh(x), LAMBDA i, j : SumSeq([m \in 1..i |-> x[m][j]]))

Reverse(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]

\* full convolution with a kernel of one or as many channels
KCh(ker, j) == IF Len(ker[1]) = 1 THEN 1 ELSE j
Conv(x, ker) == Map2(Len(x) + Len(ker) - 1, NCh(x),
   LAMBDA i, j : SumSeq([m \in 1..Len(ker) |->
                   IF i - m + 1 >= 1 /\ i - m + 1 <= Len(x) THEN ker[m][KCh(ker, j)] * x[i - m + 1][j] ELSE 0]))

\* weighted sum over the channels
ChMix(x, w) == Map2(Len(x), 1, LAMBDA i, j : SumSeq([k \in 1..NCh(x) |-> x[i][k] * (IF Len(w) = 1 THEN w[1] ELSE w[k])]))

Scale(x, w) == Map2(Len(x), NCh(x), LAMBDA i, j : x[i][j] * w[j])

\* y[i] = b1 x[i] + b2 x[i-1] + b3 x[i-2] - a2 y[i-1] - a3 y[i-2], row by row
At(y, i, j) == IF i < 1 THEN 0 ELSE y[i][j]
RECURSIVE Biquad(_, _, _)
Biquad(x, s, n) ==   \* first n rows of the output
  IF n = 0 THEN <<>>
  ELSE LET y == Biquad(x, s, n - 1) IN
       Append(y, [j \in 1..NCh(x) |-> s[1] * x[n][j] + s[2] * At(x, n - 1, j) + s[3] * At(x, n - 2, j)
                                      - s[5] * At(y, n - 1, j) - s[6] * At(y, n - 2, j)])
RECURSIVE Cascade(_, _)
Cascade(x, sos) == IF sos = <<>> THEN x ELSE Cascade(Biquad(x, Head(sos), Len(x)), Tail(sos))

\* several filters side by side: the channels of the first filter come first
Bank(x, banks) == LET ys == [b \in 1..Len(banks) |-> Cascade(x, banks[b])] c == NCh(x) IN
   Map2(Len(x), c * Len(banks), LAMBDA i, j : ys[(j - 1) \div c + 1][i][((j - 1) % c) + 1])

\* sum over groups of channels (column numbers from 0)
Groups(x, gs) == Map2(Len(x), Len(gs), LAMBDA i, j : SumSeq([k \in 1..Len(gs[j]) |-> x[i][gs[j][k] + 1]]))
\* the same with everything that is not larger than thr percent of the row's maximum removed
RowMax(r) == CHOOSE m \in {r[k] : k \in 1..Len(r)} : \A k \in 1..Len(r) : r[k] <= m
ClipGroups(x, gs, num, den) ==
   Map2(Len(x), Len(gs), LAMBDA i, j :
        SumSeq([k \in 1..Len(gs[j]) |-> IF x[i][gs[j][k] + 1] * den > RowMax(x[i]) * num THEN x[i][gs[j][k] + 1] ELSE 0]))

\* a ring of c microphones turned by s microphones per sample
Rotate(x, s) == Map2(Len(x), NCh(x), LAMBDA i, j : x[i][((j - 1 + s * (i - 1)) % NCh(x)) + 1])

------------------------------------------------------------------------------
\* trigger: samples at which the (rise of the) signal exceeds the threshold; of two neighbours that are
\* closer than num/den of the largest distance one is removed, from the front, until none is left
Over(v, thr) == IF thr > 0 THEN v > thr ELSE v < thr
RECURSIVE Crossings(_, _, _, _)
Crossings(x, thr, rect, i) ==
  IF i > Len(x) THEN <<>>
  ELSE LET v == IF rect THEN (IF i = 1 THEN 0 ELSE x[i][1] - x[i - 1][1]) ELSE x[i][1] IN
       (IF Over(v, thr) THEN <<i - 1>> ELSE <<>>) \o Crossings(x, thr, rect, i + 1)
Dists(p) == [i \in 1..(Len(p) - 1) |-> p[i + 1] - p[i]]
MaxOf(s) == CHOOSE m \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= m
MinOf(s) == CHOOSE m \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] >= m
Abs(a) == IF a < 0 THEN -a ELSE a
Drop(p, k) == SubSeq(p, 1, k - 1) \o SubSeq(p, k + 1, Len(p))
RECURSIVE Thin(_, _, _, _, _, _)
Thin(x, p, mx, num, den, extremum) ==
  LET close == {k \in 1..(Len(p) - 1) : (p[k + 1] - p[k]) * den < num * mx} IN
  IF close = {} THEN p
  ELSE LET k == CHOOSE k \in close : \A m \in close : k <= m
           d == IF extremum /\ Abs(x[p[k] + 1][1]) <= Abs(x[p[k + 1] + 1][1]) THEN k ELSE k + 1
       IN Thin(x, Drop(p, d), mx, num, den, extremum)
Trigger(x, thr, rect, num, den, extremum) ==
  LET p == Crossings(x, thr, rect, 1) IN
  IF Len(p) < 2 THEN <<<<>>>>
  ELSE LET q == Thin(x, p, MaxOf(Dists(p)), num, den, extremum) IN <<q, <<MaxOf(Dists(q)), MinOf(Dists(q))>>>>
=============================================================================
