----------------------------- MODULE MaskingMC -----------------------------
(* All parameter combinations and single changes between them; emits histories to replay. *)
EXTENDS Masking, TLC, Json
CONSTANTS Ns, Cs, Starts, Stops, MaxOps, Emit
StartsA == {3, -2, 0}
StopsA == {99999, 4, -1, 30}
StartsB == {0, 1, 4, -3}
StopsB == {99999, 3, 4, -1, 30}
VARIABLE hist
vars == <<p, hist>>
Op(o, a) == [op |-> o, a |-> a]
MCInit == /\ p = [n |-> 5, c |-> 4, start |-> 0, stop |-> NoStop, inv |-> <<>>]
          /\ hist = <<>>
MCNext ==
  /\ Len(hist) < MaxOps
  /\ \/ \E s \in Starts : SetStart(s) /\ hist' = Append(hist, Op("start", <<s>>))
     \/ \E s \in Stops : SetStop(s) /\ hist' = Append(hist, Op("stop", <<s>>))
     \/ \E v \in {<<>>, <<1>>, <<2, 0>>, <<7>>} : SetInv(v) /\ hist' = Append(hist, Op("inv", v))
     \/ \E ch \in {0, 3} : /\ ~InSeq(ch, p.inv) /\ Append1(ch) /\ hist' = Append(hist, Op("append", <<ch>>))
     \/ \E ch \in {0, 1, 3} : Remove1(ch) /\ hist' = Append(hist, Op("remove", <<ch>>))
     \/ \E n \in Ns, c \in Cs : /\ (n # p.n \/ c # p.c) /\ SetData(n, c) /\ hist' = Append(hist, Op("data", <<n, c>>))
MCSpec == MCInit /\ [][MCNext]_vars
NonEmptyChannels == NumChannels(p) >= 1
EmitHist == IF Emit /\ Len(hist) = MaxOps THEN PrintT(<<"HIST", ToJson(hist)>>) ELSE TRUE
=============================================================================
