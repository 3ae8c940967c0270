---------------------------- MODULE FiltersTrace ----------------------------
EXTENDS Filters, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad, s
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ s = Traces[t].init
Near(a, b, e) == Abs(a - b) <= e
\* s: [F, n, both] settings of a band filter; both: forwards and backwards
Octave == LET w == Width(s.F) IN
          IF ~Near(E.centre, 10000, IF s.n = 1 THEN 30 ELSE 15) THEN "unit gain in the middle of the band"
          ELSE IF ~Near(E.energy, w, (w * (IF s.both THEN (IF s.n = 1 THEN 80 ELSE 22) ELSE (IF s.n = 1 THEN 55 ELSE 10))) \div 1000) THEN "power bandwidth"
          ELSE IF ~s.both /\ \E i \in 1..Len(E.at) : LET g == Gain2(s.F, s.n, E.at[i][1], E.at[i][2])
                                                     IN IF g < 2500 THEN E.g2[i] > 2600 ELSE ~Near(E.g2[i], g, 100 + (IF s.n = 1 THEN 100 ELSE 0)) THEN "gain of a Butterworth filter"
          ELSE IF \E i \in 1..(Len(E.tail) - 1) : E.tail[i + 1] > E.tail[i] + 2 THEN "less gain farther away"
          ELSE IF E.tail[Len(E.tail)] > <<4000, 700, 150, 40, 20, 20>>[s.n] THEN "attenuates other bands"
          ELSE IF s.both /\ E.fwd # E.bwd THEN "no delay" ELSE ""
WeightOk == IF \E i \in 1..Len(E.k) : ~Near(E.db[i], 10 * Weight(s.w, E.k[i]), 10) THEN "frequency weighting" ELSE ""
StepOk == IF Len(E.v) # Len(Step) THEN "every step" ELSE IF \E i \in 1..Len(Step) : ~Near(E.v[i], Step[i], 20) THEN "time weighting" ELSE ""
BankOk == IF E.bands # Bands(s.lo, s.hi, s.F) THEN "bands of the bank"
          ELSE IF E.num # Len(E.bands) \/ E.nch # E.num * E.src THEN "number of bands and channels"
          ELSE IF E.out # E.ref THEN "band after band, as single filters" ELSE ""
Clause == IF E.op = "high" THEN (IF E.x = "ValueError" THEN "" ELSE "refuses bands that are too high")
          ELSE IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "set" -> "" [] E.op = "octave" -> Octave [] E.op = "weight" -> WeightOk [] E.op = "step" -> StepOk
                 [] E.op = "bank" -> BankOk [] E.op = "same" -> IF E.out = E.ref THEN "" ELSE E.what
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = "" /\ s' = (IF E.op = "set" THEN E.s ELSE s)
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED <<l, s>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad, s>>
=============================================================================
