----------------------------- MODULE PathsTrace -----------------------------
EXTENDS Paths, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad, s
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ s = Traces[t].init
Near(a, b) == Abs(a - b) <= 2 + Abs(b) \div 100000
K == {s.ks[i] : i \in 1..Len(s.ks)}
At(v, k, d) == \A i \in 1..3 : Near(v[i], 10 * Der(s.c[i], k, d))
Loc == IF Len(E.out) # Len(E.k) THEN "one place for each time"
       ELSE IF \E j \in 1..Len(E.k) : ~At(E.out[j], E.k[j], E.der) THEN (IF E.der = 0 THEN "passes through its points" ELSE "moves along its way") ELSE ""
Ival == IF E.out = <<Min(K), Max(K)>> THEN "" ELSE "from the first to the last point"
Walk == LET a == IF E.n = 1 THEN Min(K) ELSE E.a
            b == IF E.n < 3 THEN Max(K) ELSE E.b
            ts == Times(a, b, E.step)
        IN IF Len(E.out) # Len(ts) THEN "steps from start to end"
           ELSE IF \E j \in 1..Len(ts) : ~At(E.out[j], ts[j], E.der) THEN "steps along the way" ELSE ""
\* any points: E.pts are met, E.back, E.ahead: places a little before and after, E.vel: speed times twice the distance
Free == IF \E j \in 1..Len(E.pts) : \E i \in 1..3 : ~Near(E.out[j][i], E.pts[j][i]) THEN "passes through its points"
        ELSE IF \E j \in 1..Len(E.vel) : \E i \in 1..3 : Abs(E.vel[j][i] - (E.ahead[j][i] - E.back[j][i])) > 4 + Abs(E.vel[j][i]) \div 500 THEN "moves along its way" ELSE ""
Arr == LET v == Valid(s) n == Cardinality(v) IN
       IF E.num # n THEN "number of microphones"
       ELSE IF E.pos # [i \in 1..n |-> s.pos[CHOOSE k \in v : Cardinality({j \in v : j < k}) = i - 1]] THEN "valid microphones"
       ELSE IF \E i \in 1..3 : ~Near(E.center[i] * n, 1000 * Sum(s.pos, v, i)) /\ Abs(E.center[i] * n - 1000 * Sum(s.pos, v, i)) > n THEN "centre of the array"
       ELSE IF ~Near(E.aperture2, 100 * Aperture2(s)) THEN "aperture of the array" ELSE ""
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op = "set" -> ""
                 [] E.op = "loc" -> Loc
                 [] E.op = "interval" -> Ival
                 [] E.op = "walk" -> Walk
                 [] E.op = "free" -> Free
                 [] E.op = "array" -> Arr
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = "" /\ s' = (IF E.op = "set" THEN E.s ELSE s)
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED <<l, s>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad, s>>
=============================================================================
