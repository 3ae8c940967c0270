-------------------------------- MODULE Bands --------------------------------
(* Selection of frequency lines.

   A spectrum has the lines F[1..n] (ascending frequencies, integers in tenths of Hz; line k of the
   program is F[k + 1]).  Which lines are looked at by default is a state of the spectrum that is set
   by indices or by a frequency range: what was set last decides.  Band levels are sums of lines in
   half-open intervals.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NIL == 99999
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

\* --- the selection ---------------------------------------------------------------------------------
\* s = [il, ih, lo, hi, byindex]
SetLow(s, v) == [s EXCEPT !.il = v, !.byindex = TRUE]
SetHigh(s, v) == [s EXCEPT !.ih = v, !.byindex = TRUE]
SetRange(s, lo, hi) == [s EXCEPT !.lo = lo, !.hi = hi, !.byindex = FALSE]
\* first line not below f; the last line is the bound of every range
First(F, f) == MinOf({k \in 0..(Len(F) - 2) : F[k + 1] >= f} \cup {Len(F) - 1})
Low(s, F) == IF s.byindex THEN IF s.il > Len(F) - 1 THEN Len(F) - 1 ELSE s.il ELSE First(F, s.lo)
High(s, F) == IF s.byindex THEN IF s.ih = NIL THEN NIL ELSE IF s.ih > Len(F) - 1 THEN Len(F) - 1 ELSE s.ih
              ELSE IF s.hi = NIL THEN NIL ELSE First(F, s.hi)
\* negative numbers count from the end
Norm(i, F) == IF i = NIL THEN Len(F) ELSE IF i < 0 THEN i + Len(F) ELSE i
Chosen(s, F) == {k \in 0..(Len(F) - 1) : Norm(Low(s, F), F) <= k /\ k < Norm(High(s, F), F)}

\* --- bands -----------------------------------------------------------------------------------------
\* 2^(1/(2n)) and its inverse, times 10^6
Up(n) == CASE n = 1 -> 1414214 [] n = 2 -> 1189207 [] n = 3 -> 1122462 [] n = 6 -> 1059463 [] n = 12 -> 1029302 [] n = 24 -> 1014545
Down(n) == CASE n = 1 -> 707107 [] n = 2 -> 840896 [] n = 3 -> 890899 [] n = 6 -> 943874 [] n = 12 -> 971532 [] n = 24 -> 985663
\* a * m < b * d for a, b < 2^15 and m, d about 10^6, in two steps
Less(a, m, b, d) == LET x == a * (m \div 1000) - b * (d \div 1000)
                        y == a * (m % 1000) - b * (d % 1000)
                    IN IF Abs(x) > 100000 THEN x < 0 ELSE x * 1000 + y < 0
\* lines (1..n) of the 1/n octave band around f, and those of a given interval
Octave(F, f, n) == {k \in 1..Len(F) : 2 * F[k] > f /\ F[k] < 2 * f /\ ~Less(F[k], 1000000, f, Down(n)) /\ Less(F[k], 1000000, f, Up(n))}
Interval(F, a, b) == {k \in 1..Len(F) : a <= F[k] /\ F[k] < b}
\* the line at f, or the next above
Line(F, f) == {k \in 1..Len(F) : F[k] >= f /\ \A j \in 1..Len(F) : F[j] >= f => k <= j}
=============================================================================
