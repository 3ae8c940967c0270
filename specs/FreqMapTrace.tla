-------------------------- MODULE FreqMapTrace --------------------------
EXTENDS FreqMap, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
LL == T.lcm
M == Len(T.r[1])
NG == Len(T.r)
NF == Len(T.k)
Near(v, f) == Close(v, Dec(f, 4))
Loss1 == Loss(M, E.rdiag, E.norm)
\* value of the whole result, line j (from 0), grid point p
Comp(j) == LET c == T.us[j + 1] IN c
Value(j, p) ==
  LET r == T.r[p] r0 == T.r0[p] k == T.k[j + 1] c == T.us[j + 1]
  IN CASE E.what = "base" -> Map(E.type, LL, r, r0, k, T.C[j + 1], E.rdiag, Loss1)
       [] E.what = "eig" -> LET n == EigNo(E.n, M) + 1 IN
                            EigMap(E.type, LL, r, r0, k, c.u[n], c.nn[n], IPow(c.t[n], T.gamma), E.rdiag, Loss1)
       [] E.what = "functional" -> Functional(E.type, LL, r, r0, k, c.u, c.nn, c.t, T.gamma)
       [] E.what = "capon" -> Capon(E.type, LL, r, r0, k, c.u, c.nn, c.t)
MapClause ==
  LET rows == Rows(E.key, NF) IN
  IF Len(E.out) # Len(rows) THEN "rows of the key"
  ELSE IF \E j \in 1..Len(rows) : Len(E.out[j]) # NG THEN "one value for every grid point"
  ELSE IF \E j \in 1..Len(rows) : \E p \in 1..NG : ~Near(E.out[j][p], Value(rows[j], p)) THEN "value of the map" ELSE ""
\* MUSIC: smallest projection on the noise space, relative to the projection
Noise(j, p) == LET r == T.r[p] c == T.us[j + 1] nn == M - EigNo(E.n, M)
                   s == [n \in 1..nn |-> c.u[n]]
                   a == A(E.type, LL, r, T.r0[p])
               IN Dec(<<a[1] * Mix(G(E.type, LL, r), r, T.k[j + 1], s, SubSeq(c.nn, 1, nn), [n \in 1..nn |-> IPow(c.t[n], T.gamma)]), 4 * a[2]>>, 4)
MusicClause ==
  LET rows == Rows(E.key, NF) IN
  IF Len(E.out) # Len(rows) THEN "rows of the key"
  ELSE IF \E j \in 1..Len(rows) :
        LET y == [p \in 1..NG |-> Noise(rows[j], p)]
            lo == CHOOSE v \in {y[p] : p \in 1..NG} : \A p \in 1..NG : v <= y[p]
        IN lo > 100 /\ \E p \in 1..NG : \/ E.out[j][p] > 1000
                                        \/ Abs((E.out[j][p] * (y[p] \div 10)) \div 100 - lo) > 12 + y[p] \div 800 + lo \div 100
       THEN "ratio of the projections" ELSE ""
\* transfer function r0/r exp(-ik(r - r0)) at selected points; E.re[j][m], E.im[j][m]
TransferClause ==
  IF Len(E.re) # Len(E.ind) THEN "one row for every point"
  ELSE IF \E j \in 1..Len(E.ind) : \E m \in 1..M :
     LET p == E.ind[j] + 1 v == Ph(E.k * (T.r[p][m] - T.r0[p]))
     IN ~Near(E.re[j][m], <<v[1] * T.r0[p], T.r[p][m]>>) \/ ~Near(E.im[j][m], <<v[2] * T.r0[p], T.r[p][m]>>)
  THEN "amplitude and phase of the propagation" ELSE ""
\* steering vectors: products w_m conj(w_n) and w^H a
SteerClause ==
  IF Len(E.re) # Len(E.ind) THEN "one row for every point"
  ELSE IF \E j \in 1..Len(E.ind) : \E m \in 1..M : \E n \in 1..M :
     LET p == E.ind[j] + 1
         r == T.r[p]
         v == Ph(E.k * (r[m] - r[n]))
         a == A(E.type, LL, r, T.r0[p])
         g == G(E.type, LL, r)
     IN ~Near(E.re[j][m][n], <<a[1] * g[m] * g[n] * v[1], a[2]>>) \/ ~Near(E.im[j][m][n], <<a[1] * g[m] * g[n] * v[2], a[2]>>)
  THEN "magnitudes and phases of the steering vector"
  ELSE IF E.type \in {"inverse", "true level"} /\ \E j \in 1..Len(E.ind) : ~Near(E.resp[j], <<1, 1>>) THEN "unit response at the focus"
  ELSE IF \E j \in 1..Len(E.ind) : E.aligned[j] # 0 THEN "in phase with the propagation"
  ELSE ""
\* point spread functions of selected points: E.psf[p][j]
PsfClause ==
  IF Len(E.psf) # NG \/ \E p \in 1..NG : Len(E.psf[p]) # Len(E.ind) THEN "a column for every selected point"
  ELSE IF \E p \in 1..NG : \E j \in 1..Len(E.ind) :
            ~Near(E.psf[p][j], Psf(E.type, LL, T.r[p], T.r0[p], T.r[E.ind[j] + 1], T.r0[E.ind[j] + 1], E.k))
  THEN "response to a unit source" ELSE ""
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "map" -> MapClause
                 [] E.op = "music" -> MusicClause
                 [] E.op = "transfer" -> TransferClause
                 [] E.op = "steer" -> SteerClause
                 [] E.op = "psf" -> PsfClause
                 [] E.op = "mismatch" -> IF E.raised THEN "" ELSE "channels that do not fit the microphones raise"
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = ""
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED l /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad>>
=============================================================================
