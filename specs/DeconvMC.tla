---------------------------- MODULE DeconvMC ----------------------------
EXTENDS Deconv
CONSTANTS Vals,      \* values of the map
          Side,      \* values of the point spread function beside its peak, in 10^-6
          Damp,
          Steps
VARIABLES P, y, dn,
          d, clean, n, on,     \* CLEAN
          x                    \* DAMAS
vars == <<P, y, dn, d, clean, n, on, x>>
K == 3
Sym == {Q \in [1..K -> [1..K -> Side \cup {1000000}]] : \A i, j \in 1..K : Q[i][j] = Q[j][i] /\ (Q[i][j] = 1000000 <=> i = j)}
Init == /\ P \in Sym /\ y \in [1..K -> Vals] /\ dn \in Damp
        /\ d = y /\ clean = [i \in 1..K |-> 0] /\ n = 0 /\ on = TRUE /\ x = y
Clean == on /\ n < Steps
         /\ \E g \in 1..K : /\ d[g] = Max(d)
                            /\ clean' = [clean EXCEPT ![g] = @ + Amount(d, g, dn)]
                            /\ d' = Take(d, g, P, dn)
         /\ on' = Goes(d, d') /\ n' = n + 1 /\ x' = SweepFrom(1, x, y, P, dn) /\ UNCHANGED <<P, y, dn>>
Spec == Init /\ [][Clean]_vars
\* the clean map, seen through the point spread function, and the rest make the dirty map
Balance == \A i \in 1..K : Abs(d[i] + ISum([j \in 1..K |-> Fix(clean[j], P[i][j])]) - y[i]) <= K * (n + 1)
\* what was found is not negative as long as the iteration goes on
Found == on => \A i \in 1..K : clean[i] >= 0
\* DAMAS: never negative, never more than the dirty map; a solution is a fixed point
Bounds == \A i \in 1..K : 0 <= x[i] /\ x[i] <= y[i]
Solution == LET yy == [i \in 1..K |-> ISum([j \in 1..K |-> Fix(y[j], P[i][j])])] z == SweepFrom(1, y, yy, P, dn)
            IN \A i \in 1..K : Abs(z[i] - y[i]) <= K
=============================================================================
