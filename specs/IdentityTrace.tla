---------------------------- MODULE IdentityTrace ----------------------------
(* Recorded assignments and observations of real objects against the contract. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cfg, seen, t, l, bad
M == INSTANCE Identity WITH Kinds <- {"res", "props"}
T == Traces[t]
E == T.ev[l]
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ cfg = <<>> /\ M!Init
\* a value that a new object of this process, or of another process, had with configuration E.cfg
Is(x) == x # 0
Clause ==
   CASE E.e = "truth" -> ""
     [] E.e = "dig" -> IF ~M!Agrees("dig", cfg, E.x) THEN "the digest depends on the configuration only"
                       ELSE IF ~M!Separates(cfg, E.x) THEN "same digest, same results" ELSE ""
     [] E.e = "peer" -> IF ~M!Agrees("dig", E.cfg, E.x) THEN "the digest is the same in every process"
                       ELSE IF ~M!Separates(E.cfg, E.x) THEN "same digest, same results" ELSE ""
     [] E.e = "res" -> IF ~M!Agrees("res", cfg, E.x) THEN "results depend on the configuration only" ELSE ""
     [] E.e = "props" -> IF ~M!Agrees("props", cfg, E.x) THEN "derived values depend on the configuration only" ELSE ""
     [] E.e = "exc" -> "assignments are possible" [] OTHER -> ""
Act == CASE E.e = "start" -> cfg' = E.cfg /\ UNCHANGED seen
         [] E.e = "set" -> M!Set(E.p, E.x)
         [] E.e = "truth" -> seen' = seen \cup {<<"res", E.cfg, E.x>>, <<"props", E.cfg, E.p>>} /\ UNCHANGED cfg
         [] E.e = "peer" -> M!Learn("dig", E.cfg, E.x) /\ UNCHANGED cfg
         [] E.e \in {"dig", "res", "props"} -> M!Observe(E.e, E.x)
         [] OTHER -> M!Rebuild
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ Act /\ l' = l + 1 /\ bad' = "" /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE bad' = Clause /\ UNCHANGED <<cfg, seen, l>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<cfg, seen, t, l, bad>>
=============================================================================
