------------------------------ MODULE TimeCache ------------------------------
(* The contract of a cache for block-wise data, as its readers see it.                                  *)
(* store[d][v]: what the cache directory d is known to hold for the data version v:                     *)
(*   "none" nothing, "part" an unfinished copy, "done" a finished copy, "any" not determined            *)
(* (two readers wrote at the same time). The data of version v has Rows[v] rows.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS D, V, R, Broken      \* directories, versions, readers; directories where no cache file can be opened
ASSUME Broken \subseteq D
VARIABLES mode, dir, ver, store, rd
vars == <<mode, dir, ver, store, rd>>
Modes == {"individual", "all", "none", "readonly", "overwrite"}
Writing(m) == m \in {"individual", "all", "overwrite"}
Closed == [st |-> "closed", d |-> 1, v |-> 1, m |-> "none", num |-> 1, pos |-> 0, shared |-> FALSE, cached |-> FALSE]
Init == /\ mode = "individual" /\ dir = 1 /\ ver = 1
        /\ store = [d \in D |-> [v \in V |-> "none"]]
        /\ rd = [r \in R |-> Closed]
Active(r) == rd[r].st = "run"
SetMode(m) == (mode = "readonly" => \A r \in R : ~Active(r)) /\ mode' = m /\ UNCHANGED <<dir, ver, store, rd>>
SetDir(d) == (\A r \in R : ~Active(r)) /\ dir' = d /\ UNCHANGED <<mode, ver, store, rd>>
SetVer(v) == (\A r \in R : ~Active(r)) /\ ver' = v /\ UNCHANGED <<mode, dir, store, rd>>
Open(r, n) == rd[r].st = "closed" /\ rd' = [rd EXCEPT ![r] = [Closed EXCEPT !.st = "open", !.num = n]] /\ UNCHANGED <<mode, dir, ver, store>>
\* the reader as it is when its first block is asked for: the settings of that moment count
Begun(r) == IF rd[r].st = "open" THEN [rd[r] EXCEPT !.st = "run", !.d = dir, !.v = ver, !.m = mode, !.pos = 0,
                                          !.cached = mode \notin {"none", "overwrite"} /\ store[dir][ver] = "done"] ELSE rd[r]
Others(r, x) == {q \in R \ {r} : Active(q) /\ rd[q].d = x.d /\ rd[q].v = x.v}
Writer(x) == Writing(x.m) /\ (x.m = "overwrite" \/ store[x.d][x.v] # "done")
\* what is known of the store when reader x works on it
Touched(r, x) == IF ~Writing(x.m) THEN store
                 ELSE IF Others(r, x) # {} /\ (Writer(x) \/ \E q \in Others(r, x) : Writing(rd[q].m))
                 THEN [store EXCEPT ![x.d][x.v] = IF @ = "done" /\ x.m # "overwrite" /\ \A q \in Others(r, x) : rd[q].m # "overwrite" THEN "done" ELSE "any"]
                 ELSE IF rd[r].st = "open" /\ Writer(x) THEN [store EXCEPT ![x.d][x.v] = IF @ = "any" THEN "any" ELSE "part"] ELSE store
Share(r, x) == [q \in R |-> IF q = r THEN [x EXCEPT !.shared = @ \/ Others(r, x) # {}]
                            ELSE IF q \in Others(r, x) THEN [rd[q] EXCEPT !.shared = TRUE] ELSE rd[q]]
\* no source access is needed for a finished copy
FromStore(r) == Begun(r).cached
Block(r, rows) == rd[r].st # "closed" /\ LET x == Begun(r) IN
   /\ x.pos < rows
   /\ store' = Touched(r, x)
   /\ rd' = Share(r, [x EXCEPT !.pos = IF @ + x.num > rows THEN rows ELSE @ + x.num])
   /\ UNCHANGED <<mode, dir, ver>>
End(r, rows) == rd[r].st # "closed" /\ LET x == Begun(r) IN
   /\ x.pos = rows
   /\ store' = IF ~Writing(x.m) THEN store
               ELSE IF x.shared \/ Others(r, x) # {} THEN Touched(r, x)
               ELSE IF rows = 0 THEN store ELSE [store EXCEPT ![x.d][x.v] = "done"]
   /\ rd' = [Share(r, x) EXCEPT ![r] = Closed]
   /\ UNCHANGED <<mode, dir, ver>>
\* the reader is abandoned, or the source fails while it is asked for more data, or it is interrupted
Drop(r) == rd[r].st # "closed" /\ rd' = [rd EXCEPT ![r] = Closed] /\ UNCHANGED <<mode, dir, ver, store>>
Fail(r) == rd[r].st # "closed" /\ LET x == Begun(r) IN
   store' = Touched(r, x) /\ rd' = [Share(r, x) EXCEPT ![r] = Closed] /\ UNCHANGED <<mode, dir, ver>>
\* no cache file can be opened: the reader raises, and only this reader
Refused(r) == LET x == Begun(r) IN rd[r].st = "open" /\ x.d \in Broken /\ x.m # "none"
\* a new process; what was written by a process that was killed may have been lost
Killed(wrote) == rd' = [r \in R |-> Closed] /\ UNCHANGED <<mode, dir, ver>>
                 /\ store' = [d \in D |-> [v \in V |-> IF <<d, v>> \in wrote /\ store[d][v] # "none" THEN "any" ELSE store[d][v]]]
Session == rd' = [r \in R |-> Closed] /\ UNCHANGED <<mode, dir, ver, store>>
=============================================================================
