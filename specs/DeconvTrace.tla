-------------------------- MODULE DeconvTrace --------------------------
EXTENDS Deconv, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
LL == T.lcm
M == Len(T.r[1])
NG == Len(T.r)
Y == [p \in 1..NG |-> Dec(Map(E.type, LL, T.r[p], T.r0[p], T.k, T.C, E.rdiag, Loss(M, E.rdiag, E.norm)), T.d)]
PP == [p \in 1..NG |-> [s \in 1..NG |-> Dec(Psf(E.type, LL, T.r[p], T.r0[p], T.r[s], T.r0[s], T.k), 6)]]
\* E.steps[n]: result with n iterations
RECURSIVE DamasFrom(_, _, _, _)
DamasFrom(n, x, y, P) ==
  IF n > Len(E.steps) THEN ""
  ELSE LET z == SweepFrom(1, x, y, P, E.dn) tol == 20 + (Max(y) \div 2000) + Max([g \in 1..NG |-> ISum(P[g]) \div 125000])   \* rounding of what goes in
       IN IF \E g \in 1..NG : Abs(z[g] - E.steps[n][g]) > tol THEN "result after a sweep"
          \* go on from what was seen: the next sweep is compared with the next result
          ELSE DamasFrom(n + 1, [g \in 1..NG |-> E.steps[n][g]], y, P)
DamasClause == LET y == Y P == PP IN DamasFrom(1, y, y, P)
RECURSIVE CleanFrom(_, _, _, _, _, _)
CleanFrom(n, d, c, on, P, tol) ==
  IF n > Len(E.steps) THEN ""
  ELSE LET c2 == E.steps[n]
           ch == {g \in 1..NG : Abs(c2[g] - c[g]) > tol}
       IN IF ch = {}
          THEN IF on # "no" /\ (E.dn * Max(d)) \div 10 <= 3 * tol THEN ""       \* too small to be seen
               ELSE IF on = "yes" THEN "the iteration goes on while it makes progress" ELSE CleanFrom(n + 1, d, c, "no", P, tol)
          ELSE IF on = "no" THEN "the iteration has ended"
          ELSE IF Cardinality(ch) > 1 THEN "one point in every iteration"
          ELSE LET g == CHOOSE v \in ch : TRUE
                   d2 == Take(d, g, P, E.dn)
                   gain == AbsSum(d) - AbsSum(d2)
               IN IF d[g] < Max(d) - tol THEN "a maximum of the rest"
                  ELSE IF Abs(c2[g] - c[g] - Amount(d, g, E.dn)) > tol THEN "a damped part of the maximum"
                  ELSE CleanFrom(n + 1, d2, c2,
                                 IF gain > tol * NG /\ Max(d2) > tol THEN "yes"
                                 ELSE IF gain < 0 - tol * NG \/ Max(d2) < 0 - tol THEN "no" ELSE "maybe", P, tol)
CleanClause == LET y == Y IN CleanFrom(1, y, [g \in 1..NG |-> 0], "yes", PP, 10 + Max(y) \div 1000)
\* CLEAN-SC with one source and noise that is not correlated: every iteration removes the same part of the whole map
RECURSIVE ScFrom(_, _, _, _)
ScFrom(n, h, c, tol) ==
  IF n > Len(E.steps) THEN ""
  ELSE LET c2 == E.steps[n]
           ch == {g \in 1..NG : Abs(c2[g] - c[g]) > tol}
           left == [g \in 1..NG |-> (h[g] * (10 - E.dn)) \div 10]
       IN IF ch = {} THEN (IF (E.dn * Max(h)) \div 10 > 3 * tol THEN "every iteration finds the source again" ELSE ScFrom(n + 1, left, c, tol))
          ELSE IF Cardinality(ch) > 1 THEN "one point in every iteration"
          ELSE LET g == CHOOSE v \in ch : TRUE IN
               IF h[g] < Max(h) - tol THEN "a maximum of the rest"
               ELSE IF Abs(c2[g] - c[g] - Amount(h, g, E.dn)) > tol THEN "a damped part of the maximum"
               ELSE ScFrom(n + 1, left, c2, tol)
ScClause == LET y == Y IN IF Max(y) <= 0 THEN (IF \A n \in 1..Len(E.steps) : \A g \in 1..NG : E.steps[n][g] = 0 THEN "" ELSE "nothing to find")
                          ELSE ScFrom(1, y, [g \in 1..NG |-> 0], 10 + Max(y) \div 200)
\* orthogonal beamforming: every component at a maximum of its map, with its eigenvalue over the number of microphones
OrthClause ==
  LET raw(n) == [p \in 1..NG |-> Dec(<<A(E.type, LL, T.r[p], T.r0[p])[1] * Quad(G(E.type, LL, T.r[p]), T.r[p], T.k, Outer(T.us.u[n]), ~E.rdiag),
                                       A(E.type, LL, T.r[p], T.r0[p])[2]>>, 5)]
      best(n) == LET m == raw(n) IN {p \in 1..NG : m[p] >= Max(m) - 3 - Abs(Max(m)) \div 20000}
      RECURSIVE Fits(_, _)
      Fits(ns, rest) == IF ns = <<>> THEN \A p \in 1..NG : Abs(rest[p]) <= 5
                        ELSE \E p \in best(Head(ns)) : Fits(Tail(ns), [rest EXCEPT ![p] = @ - (10000 * T.us.t[Head(ns)]) \div M])
  IN IF Fits(E.comps, E.out) THEN "" ELSE "eigenvalues at the maxima of their maps"
\* inverse methods: the strengths of the sources that make the cross spectral matrix
InverseClause == IF Len(E.out) # NG \/ \E p \in 1..NG : Abs(E.out[p] - 10000 * E.x0[p]) > 150 THEN "strengths of the sources" ELSE ""
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "damas" -> DamasClause
                 [] E.op = "clean" -> CleanClause
                 [] E.op = "cleansc" -> ScClause
                 [] E.op = "orth" -> OrthClause
                 [] E.op = "inverse" -> InverseClause
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = ""
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED l /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad>>
=============================================================================
