-------------------------- MODULE ResultCacheTrace --------------------------
(* Recorded uses of cached results, several processes one after the other, against the contract. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES mode, dir, ver, store, hd, wrote, t, l, bad
D == 1..2
V == 1..3
H == 1..3
I == 0..3
M == INSTANCE ResultCache
T == Traces[t]
E == T.ev[l]
Set(q) == {q[i] : i \in 1..Len(q)}
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ wrote = {} /\ M!Init
GetClause ==
   IF E.out = "exc" THEN "no exception"
   ELSE IF E.wrong # <<>> THEN "values are those of a computation without cache"
   ELSE IF T.lazy /\ ~(Set(E.comp) \cap M!Known(E.h) = {}) THEN "what is stored is not computed again" ELSE ""
Clause == CASE E.e = "get" -> GetClause
            [] E.e = "exit" -> IF \E d \in D : E.changed[d] /\ d \notin wrote THEN "modes none and readonly write nothing" ELSE ""
            [] E.e = "exc" -> "no exception" [] OTHER -> ""
Act == CASE E.e = "mode" -> M!SetMode(E.a[1])
         [] E.e = "dir" -> M!SetDir(E.h)
         [] E.e = "ver" -> M!SetVer(E.h)
         [] E.e = "new" -> M!New(E.h, E.a # <<>>)
         [] E.e = "get" -> (IF E.out = "injected" THEN M!Fail(E.h, Set(E.a)) ELSE M!Get(E.h, Set(E.a)))
         [] E.e = "exit" -> M!Session
         [] OTHER -> UNCHANGED <<mode, dir, ver, store, hd>>
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ Act /\ l' = l + 1 /\ bad' = ""
                         /\ wrote' = IF E.e = "get" THEN wrote \cup (IF M!Writes(M!Used(E.h).m) THEN {M!Used(E.h).d} ELSE {})
                                                                          \cup (IF mode \notin {"none", "readonly"} THEN {dir} ELSE {}) ELSE IF E.e = "exit" THEN {} ELSE wrote
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE bad' = Clause /\ UNCHANGED <<mode, dir, ver, store, hd, wrote, l>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<mode, dir, ver, store, hd, wrote, t, l, bad>>
=============================================================================
