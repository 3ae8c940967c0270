---------------------------- MODULE SignalsTrace ----------------------------
EXTENDS Signals, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
Near(a, b, e) == Abs(a - b) <= e
\* E.n: the number of samples asked for
SineOk == IF \E i \in 1..E.n : ~Near(E.out[i], E.amp * (Sine(E.k0 + (i - 1) * E.dk) \div 1000), E.amp + 2) THEN "values of the sine" ELSE ""
LoopOk == LET w == Looped(E.x, E.n, E.loop) IN IF \E i \in 1..E.n : E.out[i] # E.amp * w[i] THEN "values of the recording" ELSE ""
RECURSIVE Size(_)
Size(c) == IF c = <<>> THEN 0 ELSE Abs(Head(c)) + Size(Tail(c))
\* denominator times signal is numerator times noise, delay taken back
FiltOk == IF \E i \in Len(E.ar)..E.n : ~Near(Dot(E.ar, E.out, i, 0), Dot(E.ma, E.x, i + (Len(E.ma) \div 2), 0), 2 + Size(E.ar) + Size(E.ma)) THEN "filtered noise" ELSE ""
ScaleOk == IF \E i \in 1..E.n : ~Near(E.out[i], E.k * E.x[i], Abs(E.k) + 1) THEN "grows with the amplitude" ELSE ""
UpOk == IF Len(E.up) # E.f * E.n THEN "length of the upsampled signal"
        ELSE IF \E i \in 1..E.n : ~Near(E.up[E.f * (i - 1) + 1], E.out[i], 5) THEN "upsampled signal contains the signal" ELSE ""
Clause == IF E.x0 # "" THEN "no exception"
          ELSE IF Len(E.out) # E.n THEN "number of samples"
          ELSE CASE E.op = "sine" -> SineOk
                 [] E.op = "loop" -> LoopOk
                 [] E.op = "filter" -> FiltOk
                 [] E.op = "scale" -> ScaleOk
                 [] E.op = "up" -> UpOk
                 [] E.op = "same" -> IF E.out = E.ref THEN "" ELSE "same settings, same signal"
                 [] E.op = "other" -> IF E.out # E.ref THEN "" ELSE "another seed, another signal"
                 [] E.op = "rms" -> IF Near(E.ms, E.want, (E.want * E.tol) \div 100) THEN "" ELSE "root mean square"
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = ""
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED l /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad>>
=============================================================================
