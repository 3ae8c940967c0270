---------------------------- MODULE SplitterTrace ----------------------------
(* Recorded histories: every outcome, buffer level and warning count must be the one of the specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES S, t, l, bad
C == 1..3
MaxSize == 9
M == INSTANCE Splitter
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ S = [M!Idle EXCEPT !.n = Traces[t].n]
After == CASE E.op = "next" -> M!Call(E.c).s [] OTHER -> S
Clause ==
  CASE E.op = "next" ->
    LET r == M!Call(E.c) IN
    IF E.out[1] # r.out[1] THEN "outcome is " \o r.out[1] \o ", not " \o E.out[1]
    ELSE IF E.out # r.out THEN "blocks in order, each once"
    ELSE IF r.out[1] # "error" /\ E.warns # r.s.warns THEN "a warning for every block that is lost"
    ELSE IF r.out[1] # "error" /\ E.lev # [c \in C |-> IF r.s.reg[c] THEN Len(r.s.buf[c]) ELSE -1] THEN "buffer levels" ELSE ""
  [] OTHER -> IF E.out[1] = "exc" THEN "no-exception" ELSE ""
Step == CASE E.op = "next" -> S' = M!Call(E.c).s
          [] E.op = "reg" -> M!Register(E.c, E.size, E.treat)
          [] E.op = "rem" -> M!Remove(E.c)
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN Step /\ l' = l + 1 /\ bad' = "" /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE bad' = Clause /\ UNCHANGED <<l, S>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<S, t, l, bad>>
=============================================================================
