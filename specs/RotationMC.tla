---------------------------- MODULE RotationMC ----------------------------
(* The wheel itself, sample by sample: what follows from its signals is where it is. *)
EXTENDS Rotation
CONSTANTS MaxK, MaxP, Revs, Vals
VARIABLES K, P, A, D, n, pos, pulses, v
vars == <<K, P, A, D, n, pos, pulses, v>>
Init == K \in 1..MaxK /\ P \in 1..MaxP /\ A \in 0..(MaxK - 1) /\ A < K /\ D \in {1, -1} /\ n = 0 /\ pos = ((-D * A) % (P * K)) /\ pulses = <<>>
        /\ v \in [1..3 -> Vals]
\* a mark passes at every K units of the way
Next == /\ n < Revs * P * K /\ UNCHANGED <<K, P, A, D, v>>
        /\ n' = n + 1 /\ pos' = (pos + D) % (P * K)
        /\ pulses' = IF pos % K = 0 THEN Append(pulses, n) ELSE pulses
Spec == Init /\ [][Next]_vars
Regular == \A i \in 1..Len(pulses) : pulses[i] = A + (i - 1) * K
Followed == pos = Angle(D, K, A, n) % (P * K)
Whole == (n > 0 /\ n % (P * K) = 0) => pos = ((-D * A) % (P * K))
\* at the microphones their values, between them between their values; a whole turn changes nothing
Between == \A x \in 0..(3 * K) : LET r == Ring(v, x, K) IN
             /\ x % K = 0 => r = K * v[((x \div K) % 3) + 1]
             /\ \E i, j \in 1..3 : K * v[i] <= r /\ r <= K * v[j]
             /\ Ring(v, x + 3 * K, K) = r /\ Ring(v, x - 3 * K, K) = r
=============================================================================
