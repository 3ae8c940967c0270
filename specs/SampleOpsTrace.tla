--------------------------- MODULE SampleOpsTrace ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
O == INSTANCE SampleOps
VARIABLES t, done
T == Traces[t]
E == T.ev[1]
Expected ==
  CASE E.op = "mix"    -> O!Mix(E.xs, E.w)
    [] E.op = "avg"    -> O!AvgSum(E.xs[1], E.k)
    [] E.op = "power"  -> O!Power(E.xs[1])
    [] E.op = "cum"    -> O!CumSum(E.xs[1])
    [] E.op = "rev"    -> O!Reverse(E.xs[1])
    [] E.op = "conv"   -> O!Conv(E.xs[1], E.ker)
    [] E.op = "chmix"  -> O!ChMix(E.xs[1], E.w)
    [] E.op = "scale"  -> O!Scale(E.xs[1], E.w)
    [] E.op = "sos"    -> O!Cascade(E.xs[1], E.sos)
    [] E.op = "bank"   -> O!Bank(E.xs[1], E.banks)
    [] E.op = "groups" -> O!Groups(E.xs[1], E.gs)
    [] E.op = "clip"   -> O!ClipGroups(E.xs[1], E.gs, E.cnum, E.cden)
    [] E.op = "rotate" -> O!Rotate(E.xs[1], E.k)
    [] E.op = "ident"  -> E.xs[1]
    [] E.op = "trigger" -> O!Trigger(E.xs[1], E.thr, E.rect, E.num, E.den, E.extremum)
Clause == IF E.x # "" THEN "no-exception" ELSE IF E.out = Expected THEN "ok" ELSE "output is " \o E.op \o " of the input"
TraceInit == t \in 1..Len(Traces) /\ done = FALSE
TraceNext == /\ ~done /\ done' = TRUE /\ UNCHANGED t
             /\ PrintT(<<"VERDICT", t, 1, Clause>>)
             /\ (Clause # "ok" /\ E.x = "" => PrintT(<<"EXPECTED", t, ToJson(Expected)>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<t, done>>
=============================================================================
