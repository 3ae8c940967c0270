----------------------------- MODULE ThreadTrace -----------------------------
(* What each consumer of a splitter got when several threads read one pass under some schedule.
   T.n blocks, T.size / T.treat per consumer; ev: the events in the order they were recorded. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad, last, fin
T == Traces[t]
E == T.ev[l]
Min(a, b) == IF a < b THEN a ELSE b
Roomy == \A c \in 1..T.k : T.size[c] >= T.n
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ last = [c \in 1..3 |-> 0] /\ fin = [c \in 1..3 |-> 0]
Clause ==
  CASE E.e = "block" -> IF fin[E.c] # 0 THEN "nothing after the end"
                        ELSE IF E.b <= last[E.c] THEN "no block twice or out of order"
                        ELSE IF (T.size[E.c] >= T.n \/ T.treat[E.c] = "error") /\ E.b # last[E.c] + 1 THEN "no block is lost"
                        ELSE IF E.b > T.n THEN "blocks of the source" ELSE ""
    [] E.e = "end" -> IF last[E.c] # T.n THEN "every consumer gets the last block" ELSE ""
    [] E.e = "overflow" -> IF \A c \in 1..T.k : T.size[c] >= T.n \/ T.treat[c] # "error" THEN "no overflow error without overflow" ELSE ""
    [] E.e = "pass" -> IF E.b > 1 /\ ~E.after THEN "the source is read once" ELSE ""
    [] OTHER -> "no-exception"
Done == l = Len(T.ev)
Stop == IF Done /\ bad' = "" /\ \E c \in 1..T.k : fin'[c] = 0 THEN "every consumer ends" ELSE ""
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ last' = IF E.e = "block" THEN [last EXCEPT ![E.c] = E.b] ELSE last
                         /\ fin' = IF E.e \in {"end", "overflow"} THEN [fin EXCEPT ![E.c] = 1] ELSE fin
                         /\ bad' = "" /\ l' = l + 1
                         /\ (Done => PrintT(<<"VERDICT", t, l, IF Stop = "" THEN "ok" ELSE Stop>>))
     ELSE bad' = Clause /\ UNCHANGED <<l, last, fin>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad, last, fin>>
=============================================================================
