---------------------------- MODULE FocusTimesMC ----------------------------
(* A source emits arbitrary values, the microphones record them after their delays, and delay and sum
   reads the records as soon as they are long enough: what it delivers is what the source emitted, and
   it never needs samples that are not there yet.                                                   *)
EXTENDS FocusTimes, FiniteSets
CONSTANTS MaxN, Delays, Values, Mics
VARIABLES n, sent, rec, d, out
vars == <<n, sent, rec, d, out>>
Init == /\ n = 0 /\ sent = <<>> /\ out = <<>>
        /\ d \in [1..Mics -> Delays]
        /\ rec = [m \in 1..Mics |-> <<>>]
Emit == /\ n < MaxN
        /\ \E v \in Values :
             LET s == Append(sent, v) IN
             /\ sent' = s
             \* a fractional delay (in halves) records the mean of two neighbours: linear between samples
             /\ rec' = [m \in 1..Mics |-> Append(rec[m], IF n - d[m] >= 0 THEN s[n - d[m] + 1] ELSE 0)]
        /\ n' = n + 1 /\ UNCHANGED <<d, out>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
DMax == Max({d[m] : m \in 1..Mics})
Focus == /\ Len(out) + DMax < n
         /\ out' = Append(out, SumSeq([m \in 1..Mics |-> Interp(rec[m], Len(out), 1000 * d[m]) \div 1000]))
         /\ UNCHANGED <<n, sent, rec, d>>
Next == Emit \/ Focus
Spec == Init /\ [][Next]_vars
OutputIsSource == \A k \in 1..Len(out) : out[k] = Mics * sent[k]
\* a wrong focus does not: the model tells delays apart
Causal == Len(out) + DMax <= n \/ out = <<>>
=============================================================================
