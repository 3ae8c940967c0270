---------------------------- MODULE TimeCacheMC ----------------------------
(* A cache algorithm next to the contract: a file holds for every version a copy (absent, or n rows and a  *)
(* flag that it is complete). Readers pass data through, write a copy, read a complete one, or deliver the *)
(* whole blocks of an unfinished one and then replace it by a new copy. Nodes have a generation: a reader  *)
(* whose node was removed goes on without writing. The contract must be kept: what a reader delivers are  *)
(* the rows in order, and what the contract calls done is complete in the file.                           *)
EXTENDS TimeCache, TLC, Json
CONSTANTS Rows, Nums, MaxOps, Emit
VARIABLES file, al, okrows, hist
R1 == <<5, 3, 4>>
R2 == <<4, 6, 3>>
mcvars == <<vars, file, al, okrows, hist>>
Off == [k |-> "off", pos |-> 0, gen |-> 0, nb |-> 0]
MCInit == /\ Init /\ okrows = TRUE /\ hist = <<>>
          /\ file = [d \in D |-> [v \in V |-> [has |-> FALSE, n |-> 0, full |-> FALSE, gen |-> 0]]]
          /\ al = [r \in R |-> Off]
Log(op, r, a) == hist' = Append(hist, [op |-> op, r |-> r, a |-> a])
Kind(f, m) == CASE m = "none" -> "pass"
                [] m = "overwrite" -> "write"
                [] m = "readonly" -> IF f.has /\ f.full THEN "cache" ELSE "pass"
                [] OTHER -> IF ~f.has THEN "write" ELSE IF f.full THEN "cache" ELSE "redo"
Started(r) == LET x == Begun(r)
                  f == file[x.d][x.v] IN
   IF rd[r].st = "open" THEN [k |-> Kind(f, x.m), pos |-> 0, gen |-> f.gen, nb |-> IF Kind(f, x.m) = "redo" THEN f.n \div x.num ELSE 0] ELSE al[r]
NewNode(f) == [has |-> TRUE, n |-> 0, full |-> FALSE, gen |-> f.gen + 1]
Min(a, b) == IF a < b THEN a ELSE b
\* one step of the algorithm: new file entry, new reader state, rows delivered from..to, ended?
Alg(r) == LET x == Begun(r)
              a == Started(r)
              f == file[x.d][x.v]
              n == Rows[x.v]
              to == Min(n, a.pos + x.num)
              Put(g, aa) == IF g.gen = aa.gen THEN [g EXCEPT !.n = to] ELSE g
              Fin(g, aa) == IF g.gen = aa.gen THEN [g EXCEPT !.full = TRUE] ELSE g
          IN CASE a.k \in {"pass", "cache"} -> [f |-> f, a |-> [a EXCEPT !.pos = to], to |-> to]
               [] a.k = "write" /\ rd[r].st = "open" -> LET g == NewNode(f) IN
                     IF n = 0 THEN [f |-> f, a |-> a, to |-> 0]
                     ELSE [f |-> [g EXCEPT !.n = to], a |-> [a EXCEPT !.pos = to, !.gen = g.gen], to |-> to]
               [] a.k = "write" -> IF a.pos = n THEN [f |-> Fin(f, a), a |-> a, to |-> n]
                                   ELSE [f |-> Put(f, a), a |-> [a EXCEPT !.pos = to], to |-> to]
               [] a.k = "redo" /\ a.pos < a.nb * x.num -> [f |-> f, a |-> [a EXCEPT !.pos = to], to |-> to]
               [] a.k = "redo" -> LET g == NewNode(f) IN
                     IF a.pos = n THEN [f |-> [g EXCEPT !.n = n, !.full = TRUE], a |-> a, to |-> n]
                     ELSE [f |-> [g EXCEPT !.n = to], a |-> [a EXCEPT !.pos = to, !.k = "write", !.gen = g.gen], to |-> to]
               [] OTHER -> [f |-> f, a |-> a, to |-> a.pos]
Do(r) == LET x == Begun(r)
             z == Alg(r) IN
   /\ rd[r].st # "closed"
   /\ file' = [file EXCEPT ![x.d][x.v] = z.f]
   /\ IF x.pos = Rows[x.v]
      THEN End(r, Rows[x.v]) /\ al' = [al EXCEPT ![r] = Off] /\ okrows' = (okrows /\ z.to = x.pos)
      ELSE Block(r, Rows[x.v]) /\ al' = [al EXCEPT ![r] = z.a] /\ okrows' = (okrows /\ z.to = rd'[r].pos /\ (FromStore(r) => z.a.k = "cache"))
\* when histories are generated, most operations are reads
Coin(n) == ~Emit \/ RandomElement(1..n) = 1
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
MCNext == /\ Len(hist) < MaxOps
          /\ \/ Coin(4) /\ (\E m \in Pick(Modes \ {mode}) : SetMode(m) /\ UNCHANGED <<file, al, okrows>> /\ Log("mode", 1, m))
             \/ Coin(6) /\ (\E d \in D : d # dir /\ SetDir(d) /\ UNCHANGED <<file, al, okrows>> /\ Log("dir", 1, ToString(d)))
             \/ Coin(4) /\ (\E v \in V : v # ver /\ SetVer(v) /\ UNCHANGED <<file, al, okrows>> /\ Log("ver", 1, ToString(v)))
             \/ \E r \in R, n \in Nums : Open(r, n) /\ UNCHANGED <<file, al, okrows>> /\ Log("open", r, ToString(n))
             \/ \E r \in R : Refused(r) /\ Drop(r) /\ UNCHANGED <<file, al, okrows>> /\ Log("step", r, "")
             \/ \E r \in R : ~Refused(r) /\ Do(r) /\ Log("step", r, "")
             \/ \E r \in R : Coin(6) /\ Active(r) /\ Drop(r) /\ al' = [al EXCEPT ![r] = Off] /\ UNCHANGED <<file, okrows>> /\ Log("drop", r, "")
             \/ \E r \in R : Coin(6) /\ rd[r].st # "closed" /\ ~Refused(r) /\ Fail(r) /\ UNCHANGED <<okrows>> /\ al' = [al EXCEPT ![r] = Off]
                   /\ (\E k \in (IF Emit THEN Pick({"fail", "fail", "intr1", "intr2", "intr3", "intr4", "intr5"}) ELSE {"fail"}) : Log(k, r, ""))
                   /\ LET x == Begun(r)
                          f == file[x.d][x.v]
                          kd == Started(r).k IN
                      file' = IF rd[r].st = "open" /\ kd = "write" THEN [file EXCEPT ![x.d][x.v] = NewNode(f)] ELSE file
             \/ Coin(5) /\ (\E k \in Pick({"exit", "kill"}) : hist # <<>> /\ (IF k = "exit" THEN Session ELSE Killed(D \X V)) /\ al' = [r \in R |-> Off] /\ UNCHANGED <<file, okrows>> /\ Log(k, 1, ""))
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<vars, [d \in D |-> [v \in V |-> [has |-> file[d][v].has, n |-> file[d][v].n, full |-> file[d][v].full]]],
          [r \in R |-> [k |-> al[r].k, pos |-> al[r].pos, nb |-> al[r].nb, own |-> rd[r].st = "run" /\ al[r].gen = file[rd[r].d][rd[r].v].gen]], okrows>>
Transparent == okrows
DoneIsFull == \A d \in D, v \in V : /\ (store[d][v] = "done" => file[d][v].has /\ file[d][v].full)
                                    /\ (file[d][v].full => file[d][v].n = Rows[v])
EmitHist == ~Emit \/ Len(hist) < MaxOps \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
