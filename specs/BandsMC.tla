------------------------------- MODULE BandsMC -------------------------------
(* all histories of settings of a small spectrum; every line belongs to exactly one octave *)
EXTENDS Bands
CONSTANTS MaxLen, Freqs, Idx, MaxHist
VARIABLES s, n, h
F == [k \in 1..n |-> 10 * (k - 1)]
Init == s = [il |-> 1, ih |-> -1, lo |-> 0, hi |-> 0, byindex |-> TRUE] /\ n = MaxLen /\ h = 0
I == Idx \cup {-i : i \in Idx}
Next == /\ h < MaxHist /\ h' = h + 1
        /\ \/ \E v \in I : s' = SetLow(s, v) /\ UNCHANGED n
           \/ \E v \in I \cup {NIL} : s' = SetHigh(s, v) /\ UNCHANGED n
           \/ \E a \in Freqs, b \in Freqs \cup {NIL} : s' = SetRange(s, a, b) /\ UNCHANGED n
           \/ \E m \in 2..MaxLen : n' = m /\ UNCHANGED s
Spec == Init /\ [][Next]_<<s, n, h>>
\* a range by frequencies chooses what lies in it, up to the last line
InRange == ~s.byindex => Chosen(s, F) = {k \in 0..(n - 1) : \/ F[k + 1] >= s.lo /\ F[k + 1] < s.hi /\ k < n - 1
                                                            \/ s.hi = NIL /\ (F[k + 1] >= s.lo \/ k = n - 1)}
\* what is chosen has no gaps
NoGaps == \A a, b \in Chosen(s, F) : \A k \in a..b : k \in Chosen(s, F)
\* neighbouring octaves share no line and miss none (centre f and 2f)
Octaves == \A f \in Freqs : f > 0 => /\ Octave(F, f, 1) \cap Octave(F, 2 * f, 1) = {}
                                     /\ \A k \in 1..n : F[k] >= f /\ F[k] <= 2 * f => k \in Octave(F, f, 1) \cup Octave(F, 2 * f, 1)
\* thirds are within their octave and the middle one is the third around the centre
Thirds == \A f \in Freqs : Octave(F, f, 3) \subseteq Octave(F, f, 1) /\ Octave(F, f, 24) \subseteq Octave(F, f, 3) /\ (\A k \in 1..n : F[k] = f /\ f > 0 => k \in Octave(F, f, 24))
=============================================================================
