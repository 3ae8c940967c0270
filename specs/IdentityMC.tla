----------------------------- MODULE IdentityMC -----------------------------
(* The mechanism next to the contract: values are kept until a parameter they are declared to depend on is  *)
(* assigned (DepOn). Holds when everything a value depends on is declared; fails for any omission.          *)
EXTENDS Identity, TLC, Json
CONSTANTS K, V, MaxOps, Emit, DepDig, DepRes
VARIABLES kept, hist
P == 1..K
All == {"dig"} \cup Kinds
DepOn(k) == IF k = "dig" THEN DepDig ELSE DepRes
\* the result does not depend on parameter K when there are several
Result(c) == [p \in P |-> IF p = K /\ K > 2 THEN 0 ELSE c[p]]
Digest(c) == [p \in P |-> IF p \in DepDig THEN c[p] ELSE 0]
Fresh(k, c) == IF k = "dig" THEN Digest(c) ELSE Result(c)
None == <<>>
Value(k) == IF kept[k] = None THEN Fresh(k, cfg) ELSE kept[k]
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
Coin(n) == ~Emit \/ RandomElement(1..n) = 1
Log(op, p, v, s) == hist' = Append(hist, [op |-> op, p |-> p, v |-> v, s |-> s])
MCInit == Init /\ cfg = [p \in P |-> 1] /\ kept = [k \in All |-> None] /\ hist = <<>>
MCSet(p, v) == /\ Set(p, v) /\ kept' = [k \in All |-> IF p \in DepOn(k) THEN None ELSE kept[k]] /\ Log("set", p, v, {})
MCObs(s) == /\ seen' = seen \cup {<<k, cfg, Value(k)>> : k \in s} /\ kept' = [k \in All |-> IF k \in s THEN Value(k) ELSE kept[k]]
            /\ UNCHANGED cfg /\ Log("obs", 1, 1, s)
MCNew == Rebuild /\ kept' = [k \in All |-> None] /\ Log("new", 1, 1, {})
MCNext == /\ Len(hist) < MaxOps
          /\ \/ \E p \in Pick(P), v \in Pick(1..V) : v # cfg[p] /\ MCSet(p, v)
             \/ Coin(2) /\ \E s \in Pick(SUBSET All \ {{}}) : MCObs(s)
             \/ Coin(12) /\ MCNew
MCSpec == MCInit /\ [][MCNext]_<<vars, kept, hist>>
View == <<vars, kept>>
EmitHist == ~Emit \/ Len(hist) < MaxOps \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
