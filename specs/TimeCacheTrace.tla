--------------------------- MODULE TimeCacheTrace ---------------------------
(* Recorded uses of a Cache, several processes one after the other, against the contract. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES mode, dir, ver, store, rd, wrote, t, l, bad
D == 1..3
Broken == {3}
V == 1..4
R == 1..2
M == INSTANCE TimeCache
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ wrote = {} /\ M!Init
Min(a, b) == IF a < b THEN a ELSE b
X == M!Begun(E.r)
N == T.rows[X.v]
StepClause ==
   IF M!Refused(E.r) THEN (IF E.out = "exc" THEN "" ELSE IF X.m = "readonly" THEN "" ELSE "an error is raised if there can be no cache file")
   ELSE IF E.out = "exc" THEN "no exception"
   ELSE IF E.out = "stuck" THEN "the read goes on"
   ELSE IF X.cached /\ E.pulls > 0 THEN "a finished copy is used"
   ELSE IF E.out = "injected" THEN (IF X.cached /\ E.op = "fail" THEN "a finished copy is used" ELSE "")
   ELSE IF E.out = "end" THEN (IF X.pos = N THEN "" ELSE "all rows are delivered")
   ELSE IF X.pos = N THEN "nothing after the last row"
   ELSE IF ~\E i \in 1..Len(E.hits) : E.hits[i] = <<X.v, X.pos + 1>> THEN "rows are those of the source"
   ELSE IF E.n # Min(N - X.pos, X.num) THEN "block length" ELSE ""
StoreClause ==
   IF \E i \in 1..Len(E.ent) : E.ent[i].vs = <<>> THEN "file holds rows of the source only"
   ELSE IF \E i \in 1..Len(E.ent) : E.ent[i].full /\ ~\E j \in 1..Len(E.ent[i].vs) : E.ent[i].n = T.rows[E.ent[i].vs[j]] THEN "complete means all rows"
   ELSE IF \E d \in D, v \in V : store[d][v] = "done" /\ ~\E i \in 1..Len(E.ent) : E.ent[i].d = d /\ E.ent[i].full /\ \E j \in 1..Len(E.ent[i].vs) : E.ent[i].vs[j] = v
        THEN "a finished copy is kept"
   ELSE IF \E d \in D \ Broken : E.changed[d] /\ ~\E v \in V : <<d, v>> \in wrote THEN "modes none and readonly write nothing" ELSE ""
Clause == CASE E.e = "rd" -> StepClause [] E.e = "store" -> StoreClause [] E.e = "exc" -> "no exception" [] OTHER -> ""
Act == CASE E.e = "mode" -> M!SetMode(E.m)
         [] E.e = "dir" -> M!SetDir(E.a)
         [] E.e = "ver" -> M!SetVer(E.a)
         [] E.e = "open" -> M!Open(E.r, E.a)
         [] E.e = "drop" -> M!Drop(E.r)
         [] E.e = "rd" -> (CASE E.out = "exc" -> M!Drop(E.r) [] E.out = "injected" -> M!Fail(E.r) [] E.out = "end" -> M!End(E.r, N) [] OTHER -> M!Block(E.r, N))
         [] E.e = "exit" -> M!Session
         [] E.e = "kill" -> M!Killed(wrote)
         [] OTHER -> UNCHANGED <<mode, dir, ver, store, rd>>
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ Act /\ l' = l + 1 /\ bad' = ""
                         /\ wrote' = IF E.e = "rd" /\ M!Writing(X.m) THEN wrote \cup {<<X.d, X.v>>} ELSE IF E.e = "store" THEN {} ELSE wrote
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE bad' = Clause /\ UNCHANGED <<mode, dir, ver, store, rd, wrote, l>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<mode, dir, ver, store, rd, wrote, t, l, bad>>
=============================================================================
