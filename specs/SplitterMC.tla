----------------------------- MODULE SplitterMC -----------------------------
EXTENDS Splitter, TLC, Json
CONSTANTS MaxN, MaxOps, Emit
VARIABLES hist
Rec(op, c, size, treat) == [op |-> op, c |-> c, size |-> size, treat |-> treat]
MCInit == \E n \in 0..MaxN : S = [Idle EXCEPT !.n = n] /\ hist = <<Rec("n", 1, n, "")>>
Log(op, c, size, treat) == hist' = Append(hist, Rec(op, c, size, treat))
MCNext == /\ Len(hist) < MaxOps
          /\ \E c \in C :
              \/ \E z \in 1..MaxSize, t \in Treat : Register(c, z, t) /\ Log("reg", c, z, t)
              \/ Len(hist) > 4 /\ Remove(c) /\ Log("rem", c, 0, "")
              \/ Next1(c) /\ Log("next", c, 0, "")
MCSpec == MCInit /\ [][MCNext]_<<S, hist>>
View == S
EmitHist == ~Emit \/ Len(hist) < MaxOps \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
