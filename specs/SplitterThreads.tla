--------------------------- MODULE SplitterThreads ---------------------------
(* The splitter read by several threads, in the grain of the implementation: looking at the own buffer, taking
   the next block of the source and appending it to each buffer are separate steps, guarded by a lock (or not:
   with Locked = FALSE TLC finds the lost order). All consumers open one pass; late starters are a separate case. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS C, N, Locked
VARIABLES pc, buf, pos, held, todo, blk, lock, exist, passes, got
vars == <<pc, buf, pos, held, todo, blk, lock, exist, passes, got>>
Free == 0
Init == /\ pc = [c \in C |-> "open"] /\ buf = [c \in C |-> <<>>] /\ pos = 0 /\ held = [c \in C |-> FALSE]
        /\ todo = [c \in C |-> {}] /\ blk = [c \in C |-> 0] /\ lock = Free /\ exist = FALSE /\ passes = 0 /\ got = [c \in C |-> <<>>]
Go(c, to) == pc' = [pc EXCEPT ![c] = to]
Acquire(c, from, to) == /\ pc[c] = from /\ (Locked => lock = Free) /\ lock' = (IF Locked THEN c ELSE lock) /\ Go(c, to)
                        /\ UNCHANGED <<buf, pos, held, todo, blk, exist, passes, got>>
Release == lock' = Free
OpenTest(c) == /\ pc[c] = "opentest" /\ IF exist THEN Go(c, "loop") /\ (IF Locked THEN Release ELSE UNCHANGED lock) ELSE Go(c, "create") /\ UNCHANGED lock
               /\ UNCHANGED <<buf, pos, held, todo, blk, exist, passes, got>>
Create(c) == /\ pc[c] = "create" /\ buf' = [d \in C |-> <<>>] /\ pos' = 0 /\ exist' = TRUE /\ passes' = passes + 1
             /\ (IF Locked THEN Release ELSE UNCHANGED lock) /\ Go(c, "loop") /\ UNCHANGED <<held, todo, blk, got>>
Take(c) == /\ pc[c] = "loop" /\ buf[c] # <<>> /\ got' = [got EXCEPT ![c] = Append(@, Head(buf[c]))] /\ buf' = [buf EXCEPT ![c] = Tail(@)]
           /\ UNCHANGED <<pc, pos, held, todo, blk, lock, exist, passes>>
Empty(c) == /\ pc[c] = "loop" /\ buf[c] = <<>> /\ Go(c, "want") /\ UNCHANGED <<buf, pos, held, todo, blk, lock, exist, passes, got>>
Recheck(c) == /\ pc[c] = "recheck" /\ IF Locked /\ buf[c] # <<>> THEN Go(c, "loop") /\ Release ELSE Go(c, "fetch") /\ UNCHANGED lock
              /\ UNCHANGED <<buf, pos, held, todo, blk, exist, passes, got>>
Fetch(c) == /\ pc[c] = "fetch"
            /\ IF pos < N THEN /\ pos' = pos + 1 /\ blk' = [blk EXCEPT ![c] = pos + 1] /\ todo' = [todo EXCEPT ![c] = C]
                               /\ Go(c, "put") /\ UNCHANGED <<exist, lock>>
               ELSE /\ exist' = FALSE /\ Go(c, "done") /\ (IF Locked THEN Release ELSE UNCHANGED lock) /\ UNCHANGED <<pos, blk, todo>>
            /\ UNCHANGED <<buf, held, passes, got>>
Put(c) == /\ pc[c] = "put"
          /\ IF todo[c] = {} THEN Go(c, "loop") /\ (IF Locked THEN Release ELSE UNCHANGED lock) /\ UNCHANGED <<buf, todo>>
             ELSE LET d == CHOOSE d \in todo[c] : \A e \in todo[c] : d <= e IN
                  buf' = [buf EXCEPT ![d] = Append(@, blk[c])] /\ todo' = [todo EXCEPT ![c] = @ \ {d}] /\ UNCHANGED <<pc, lock>>
          /\ UNCHANGED <<pos, held, blk, exist, passes, got>>
\* no late starters: nobody ends before all have opened
AllOpen == \A d \in C : pc[d] \notin {"open", "opentest", "create"}
Next == \E c \in C : \/ Acquire(c, "open", "opentest") \/ OpenTest(c) \/ Create(c) \/ Take(c) \/ Empty(c)
                     \/ ((pos < N \/ AllOpen) /\ Acquire(c, "want", "recheck")) \/ Recheck(c) \/ Fetch(c) \/ Put(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InOrder == \A c \in C : got[c] = [i \in 1..Len(got[c]) |-> i]
Complete == \A c \in C : pc[c] = "done" => Len(got[c]) = N
OnePass == passes <= 1
Finishes == <>(\A c \in C : pc[c] = "done")
=============================================================================
