------------------------------ MODULE Deconv ------------------------------
(* Deconvolution of maps: the iterations, in decimals.  Maps are whole numbers in units of 10^-d, point spread
   functions P[g][s] in units of 10^-6.                                                                         *)
EXTENDS FreqMap
\* a times b / 10^6, b >= 0
FixP(a, b) == a * (b \div 1000000) + (a * ((b % 1000000) \div 1000)) \div 1000 + (a * (b % 1000)) \div 1000000
Fix(a, b) == IF a < 0 THEN 0 - FixP(0 - a, b) ELSE FixP(a, b)
Max(s) == CHOOSE v \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= v
AbsSum(s) == ISum([i \in 1..Len(s) |-> Abs(s[i])])
\* ---- Gauss-Seidel with damping dn/10, results not negative --------------------------------------
RECURSIVE SweepFrom(_, _, _, _, _)
SweepFrom(g, x, y, P, dn) ==
  IF g > Len(x) THEN x
  ELSE LET h == ISum([j \in 1..Len(x) |-> IF j = g THEN 0 ELSE Fix(x[j], P[g][j])])
           v == ((10 - dn) * x[g] + dn * (y[g] - h)) \div 10
       IN SweepFrom(g + 1, [x EXCEPT ![g] = IF v > 0 THEN v ELSE 0], y, P, dn)
RECURSIVE Sweeps(_, _, _, _, _)
Sweeps(n, x, y, P, dn) == IF n = 0 THEN x ELSE Sweeps(n - 1, SweepFrom(1, x, y, P, dn), y, P, dn)
\* ---- CLEAN: take dn/10 of a maximum, with its point spread function, out of the dirty map ----------
Amount(d, g, dn) == (dn * d[g]) \div 10
Take(d, g, P, dn) == [i \in 1..Len(d) |-> d[i] - Fix(Amount(d, g, dn), P[i][g])]
Goes(d, d2) == AbsSum(d) > AbsSum(d2) /\ Max(d2) > 0
=============================================================================
