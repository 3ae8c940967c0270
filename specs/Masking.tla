------------------------------ MODULE Masking ------------------------------
(* Sample and channel selection (MaskedTimeOut, MaskedTimeSamples).

   The user changes start, stop, the list of invalid channels (assigned or changed in place)
   and the source data at any time.  What is delivered and advertised is a function of the
   present parameters only: the Python slice start:stop of the samples and the channels that
   are not listed, in their order.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT NoStop     \* stop = None

VARIABLE p          \* [n, c, start, stop, inv]: source samples, source channels, parameters

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* Python's slice(start, stop).indices(n)
Clip(i, n) == IF i < 0 THEN Max(i + n, 0) ELSE Min(i, n)
First(q) == Clip(q.start, q.n)
Last(q)  == IF q.stop = NoStop THEN q.n ELSE Clip(q.stop, q.n)
NumSamples(q) == Last(q) - First(q)

InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Valid(q) == SelectSeq([i \in 1..q.c |-> i - 1], LAMBDA ch : ~InSeq(ch, q.inv))
NumChannels(q) == Len(Valid(q))

\* the cell of source row r, channel ch is 100 * r + ch
Rows(q) == [k \in 1..Max(NumSamples(q), 0) |->
             [j \in 1..NumChannels(q) |-> 100 * (First(q) + k - 1) + Valid(q)[j]]]

SetStart(s) == p' = [p EXCEPT !.start = s]
SetStop(s)  == p' = [p EXCEPT !.stop = s]
SetInv(v)   == p' = [p EXCEPT !.inv = v]
Append1(ch) == p' = [p EXCEPT !.inv = Append(@, ch)]
Remove1(ch) == /\ InSeq(ch, p.inv)
               /\ LET k == CHOOSE k \in 1..Len(p.inv) : p.inv[k] = ch /\ \A j \in 1..(k-1) : p.inv[j] # ch
                  IN p' = [p EXCEPT !.inv = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
SetData(n, c) == p' = [p EXCEPT !.n = n, !.c = c]

------------------------------------------------------------------------------
\* selecting never invents, repeats or reorders cells
Consistent ==
  /\ NumSamples(p) <= p.n
  /\ NumChannels(p) <= p.c
  /\ NumSamples(p) > 0 => Len(Rows(p)) = NumSamples(p)
  /\ \A k \in 1..(Len(Rows(p)) - 1) : \A j \in 1..NumChannels(p) :
        Rows(p)[k + 1][j] = Rows(p)[k][j] + 100
  /\ \A k \in 1..Len(Rows(p)) : \A j \in 1..(NumChannels(p) - 1) : Rows(p)[k][j] < Rows(p)[k][j + 1]
  \* the complement of what an invalid list removes stays
  /\ \A ch \in 0..(p.c - 1) : InSeq(ch, Valid(p)) <=> ~InSeq(ch, p.inv)
=============================================================================
