---------------------------- MODULE MaskingTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
NoStop == 99999
VARIABLES p, t, l, bad
M == INSTANCE Masking
T == Traces[t]
E == T.ev[l]
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = ""
             /\ p = Traces[t].p
Clause ==
  CASE E.e = "meta" -> IF E.ns # M!NumSamples(p) THEN "num_samples is that of the slice"
                       ELSE IF E.nc # M!NumChannels(p) THEN "num_channels counts the valid channels" ELSE ""
    [] E.e = "read" -> IF M!NumSamples(p) < 1 THEN "empty selection raises"
                       ELSE IF E.cells # M!Rows(p) THEN "cells are the slice" ELSE ""
    [] E.e = "exc"  -> IF M!NumSamples(p) >= 1 THEN "no-exception" ELSE ""
    [] OTHER -> ""
Step ==
  CASE E.e = "start"  -> M!SetStart(E.a[1])
    [] E.e = "stop"   -> M!SetStop(E.a[1])
    [] E.e = "inv"    -> M!SetInv(E.a)
    [] E.e = "append" -> M!Append1(E.a[1])
    [] E.e = "remove" -> M!Remove1(E.a[1])
    [] E.e = "data"   -> M!SetData(E.a[1], E.a[2])
    [] OTHER -> UNCHANGED p
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ Step /\ l' = l + 1 /\ bad' = ""
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED <<l, p>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<p, t, l, bad>>
=============================================================================
