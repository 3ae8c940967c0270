--------------------------- MODULE ResultCacheMC ---------------------------
(* The algorithm next to the contract: an entry has for every item a value (or rubbish left by an interruption) *)
(* and a flag that it is valid. Values are the version they were computed for.                                   *)
EXTENDS ResultCache, TLC, Json
CONSTANTS MaxOps, Emit, Sets
VARIABLES file, mem, ok, hist
mcvars == <<vars, file, mem, ok, hist>>
Blank == [i \in I |-> [val |-> 0, flag |-> FALSE]]
MCInit == Init /\ ok = TRUE /\ hist = <<>> /\ file = [d \in D |-> [v \in V |-> Blank]] /\ mem = [h \in H |-> Blank]
Log(op, h, a) == hist' = Append(hist, [op |-> op, h |-> h, a |-> a])
Coin(n) == ~Emit \/ RandomElement(1..n) = 1
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
\* where the object works: in the file, or in a copy in memory (modes none and readonly)
Entry(h) == LET x == Used(h) IN
   IF Writes(x.m) THEN (IF First(h) /\ x.m = "overwrite" THEN Blank ELSE file[x.d][x.v])
   ELSE IF First(h) THEN (IF x.m = "readonly" THEN file[x.d][x.v] ELSE Blank) ELSE mem[h]
Computed(h, is, upto) == [i \in I |-> LET e == Entry(h)[i] IN
   IF i \in is /\ ~e.flag THEN (IF i \in upto THEN [val |-> Used(h).v, flag |-> TRUE] ELSE [val |-> -1, flag |-> FALSE]) ELSE e]
Store(h, e) == LET x == Used(h) IN IF Writes(x.m) THEN file' = [file EXCEPT ![x.d][x.v] = e] /\ UNCHANGED mem
                                   ELSE mem' = [mem EXCEPT ![h] = e] /\ UNCHANGED file
MCGet(h, is) == /\ Get(h, is) /\ Store(h, Computed(h, is, is))
                /\ ok' = (ok /\ (\A i \in is : Computed(h, is, is)[i].val = Used(h).v) /\ (\A i \in is : i \in Known(h) => Entry(h)[i].flag))
MCFail(h, is) == /\ Fail(h, is) /\ (\E u \in SUBSET is : Store(h, Computed(h, is, u))) /\ UNCHANGED ok
MCNext == /\ Len(hist) < MaxOps
          /\ \/ Coin(4) /\ (\E m \in Pick(Modes \ {mode}) : SetMode(m) /\ UNCHANGED <<file, mem, ok>> /\ Log("mode", 1, <<m>>))
             \/ Coin(6) /\ (\E d \in D : d # dir /\ SetDir(d) /\ UNCHANGED <<file, mem, ok>> /\ Log("dir", d, <<>>))
             \/ Coin(3) /\ (\E v \in V : v # ver /\ SetVer(v) /\ UNCHANGED <<file, mem, ok>> /\ Log("ver", v, <<>>))
             \/ \E h \in H : (IF hd[h].st = "free" THEN TRUE ELSE Emit /\ Coin(4)) /\ (\E c \in Pick({TRUE, FALSE}) : New(h, c) /\ mem' = [mem EXCEPT ![h] = Blank]
                     /\ UNCHANGED <<file, ok>> /\ Log("new", h, IF c THEN <<"cached">> ELSE <<>>))
             \/ \E h \in H : hd[h].st # "free" /\ (\E is \in Pick(Sets) : MCGet(h, is) /\ Log("get", h, is))
             \/ \E h \in H : hd[h].st # "free" /\ Coin(4) /\ (\E is \in Pick(Sets) : MCFail(h, is) /\ Log("intr", h, is))
             \/ Coin(5) /\ hist # <<>> /\ Session /\ UNCHANGED <<file, ok>> /\ mem' = [h \in H |-> Blank] /\ Log("exit", 1, <<>>)
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<vars, file, mem, ok>>
Right == ok
\* what the contract knows to be stored is valid in the file; a valid item has the value of its version
StoreOk == \A d \in D, v \in V : /\ \A i \in store[d][v] : file[d][v][i].flag
                                 /\ \A i \in I : file[d][v][i].flag => file[d][v][i].val = v
EmitHist == ~Emit \/ Len(hist) < MaxOps \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
