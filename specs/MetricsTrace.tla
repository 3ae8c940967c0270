---------------------------- MODULE MetricsTrace ----------------------------
EXTENDS Metrics, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad, m
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ m = Traces[t].init
Near(a, b) == Abs(a - b) <= 1 + Abs(b) \div 100000
NF == Len(m.data)
\* errors are sent as the powers they stand for (times 100): E.v[f][i] against the true powers, E.w[f] against those of the map
Specific == IF Len(E.v) # NF \/ (\E f \in 1..NF : Len(E.v[f]) # Len(m.targets)) THEN "one value for each frequency and target"
            ELSE IF \E f \in 1..NF : ~\E s \in Found(m, m.data[f]) : \A i \in 1..Len(s) : Near(E.v[f][i], 100 * s[i]) THEN "levels of the targets" ELSE ""
Inverse == IF Len(E.v) # NF THEN "one value for each frequency"
           ELSE IF \E f \in 1..NF : ~\E s \in Found(m, m.data[f]) : Near(E.v[f], 100 * Total(s)) THEN "level of all targets" ELSE ""
Overall == IF Len(E.v) # NF THEN "one value for each frequency"
           ELSE IF \E f \in 1..NF : ~Near(E.v[f], 100 * Total(m.data[f])) THEN "level of the map" ELSE ""
Radii == IF Len(E.v) # Len(m.targets) \/ (\E i \in 1..Len(E.v) : ~Near(E.v[i], 25 * Diam2(m, i))) THEN "radii of the areas"
         ELSE IF E.pos # [i \in 1..Len(m.targets) |-> <<m.targets[i][1], m.targets[i][2]>>] THEN "areas are at the targets" ELSE ""
Clause == IF E.op = "bad" THEN (IF E.x # "ValueError" THEN "refuses data that do not fit" ELSE "")
          ELSE IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "set" -> ""
                 [] E.op = "specific" -> Specific
                 [] E.op = "inverse" -> Inverse
                 [] E.op = "overall" -> Overall
                 [] E.op = "radii" -> Radii
                 [] E.op = "user" -> IF E.same THEN "" ELSE "data of the user are kept"
Effect == m' = IF E.op = "set" THEN E.m ELSE m
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = "" /\ Effect
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED <<l, m>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad, m>>
=============================================================================
