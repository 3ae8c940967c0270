----------------------------- MODULE SignalsMC -----------------------------
EXTENDS Signals
CONSTANTS MaxLen, MaxN, MaxBlock
VARIABLES len, n, b, loop
Init == len \in 1..MaxLen /\ n \in 1..MaxN /\ b \in 1..MaxBlock /\ loop \in BOOLEAN
Spec == Init /\ [][FALSE]_<<len, n, b, loop>>
X == [i \in 1..len |-> 10 * i]
\* reading in blocks and repeating gives the signal, whatever the lengths
Same == Built(X, n, b, loop) = Looped(X, n, loop)
Odd == \A k \in 0..24 : Sine(k + 6) = -Sine(k) /\ Sine(k + 12) = Sine(k) /\ (k <= 12 => Sine(12 - k) = -Sine(k))
Unit == \A k \in 0..11 : Abs((Sine(k) \div 100) * (Sine(k) \div 100) + (Sine(k + 3) \div 100) * (Sine(k + 3) \div 100) - 100000000) < 40000
=============================================================================
