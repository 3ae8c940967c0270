--------------------------- MODULE BlockStreamMC ---------------------------
(* Exhaustive exploration of BlockStream for small constants, and the source of the
   schedules that are replayed into the real objects: every reachable order of
   open / next / drop of the readers up to a bounded length is printed.       *)
EXTENDS BlockStream, TLC, Json

CONSTANTS MaxN, Nums, MaxOps, MaxOpens, Emit

VARIABLES hist, opens

MCvars == <<svars, hist, opens>>

MCInit == /\ StreamInit
          /\ \E n \in 0..MaxN : out = [i \in 1..n |-> i]
          /\ hist = <<>> /\ opens = 0

Ev(op, r, n) == [op |-> op, r |-> r, n |-> n]

MCNext ==
  /\ Len(hist) < MaxOps
  /\ \E r \in Readers :
       \/ \E n \in Nums : /\ opens < MaxOpens /\ Open(r, n)
                          /\ opens' = opens + 1
                          /\ hist' = Append(hist, Ev("open", r, n))
       \/ Deliver(r) /\ hist' = Append(hist, Ev("next", r, 0)) /\ UNCHANGED opens
       \/ End(r)     /\ hist' = Append(hist, Ev("next", r, 0)) /\ UNCHANGED opens
       \/ Drop(r)    /\ hist' = Append(hist, Ev("drop", r, 0)) /\ UNCHANGED opens

MCSpec == MCInit /\ [][MCNext]_MCvars

\* every behaviour of full length is printed once (hist is part of the state)
EmitSchedules == IF Emit /\ Len(hist) = MaxOps
                 THEN PrintT(<<"SCHED", ToJson([n |-> Len(out), ev |-> hist])>>)
                 ELSE TRUE
=============================================================================
