----------------------------- MODULE FiltersMC -----------------------------
(* The response formulas, and an average with a time constant as a state machine. *)
EXTENDS Filters
CONSTANTS MaxR, Steps
VARIABLES F, n, p, q, y, x, k
vars == <<F, n, p, q, y, x, k>>
Init == F \in {1, 3} /\ n \in 1..6 /\ p \in 1..MaxR /\ q \in 1..MaxR /\ y = 0 /\ x \in {0, 100000} /\ k = 0
\* an average with the time constant of eight steps (1 - exp(-1 / 8) = 0.1175), and an input that changes at any time
Next == /\ F = 1 /\ n = 1 /\ p = 1 /\ q = 1 /\ k < Steps /\ k' = k + 1 /\ UNCHANGED <<F, n, p, q>>
        /\ y' = y + Round((x - y) * 1175, 10000) /\ x' \in {0, 100000}
Spec == Init /\ [][Next]_vars
Centre == p = q => Gain2(F, n, p, q) = 10000
Symmetric == Gain2(F, n, p, q) = Gain2(F, n, q, p)
Decreasing == p >= q => Gain2(F, n, p + 1, q) <= (IF Gain2(F, n, p, q) > Small THEN Gain2(F, n, p, q) ELSE Small)
Steeper == n < 6 => LET d == Gain2(F, n + 1, p, q) - Gain2(F, n, p, q)
                    IN IF Y(F, n, p, q) < 9000 THEN d >= -30 ELSE IF Y(F, n, p, q) > 30000 THEN d <= 30 ELSE TRUE
Narrower == Gain2(3, n, p, q) <= (IF Gain2(1, n, p, q) > Small THEN Gain2(1, n, p, q) + 1 ELSE Small)
Bounded == y >= 0 /\ y <= 100000
Tiles == LET o == Bands(20, 41, 1) t == Bands(19, 40, 3)
         IN \A i \in 1..Len(o) : \E j \in 1..Len(t) : t[j] = o[i] /\ (j > 1 /\ j < Len(t)) => (t[j - 1] = o[i] - 1 /\ t[j + 1] = o[i] + 1)
=============================================================================
