----------------------------- MODULE ResultCache -----------------------------
(* The contract of cached results that consist of items which are computed on demand and one by one     *)
(* (spectra matrix and its eigenvalues, frequencies of a map, points of a point spread function).       *)
(* store[d][v] is the set of items that directory d is known to hold for parameter version v.           *)
(* An object (handle) takes mode, directory and version of the moment of its first use.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS D, V, H, I             \* directories, versions, handles, items
VARIABLES mode, dir, ver, store, hd
vars == <<mode, dir, ver, store, hd>>
Modes == {"individual", "all", "none", "readonly", "overwrite"}
Free == [st |-> "free", m |-> "none", d |-> 1, v |-> 1, c |-> TRUE, have |-> {}]
Init == /\ mode = "individual" /\ dir = 1 /\ ver = 1
        /\ store = [d \in D |-> [v \in V |-> {}]]
        /\ hd = [h \in H |-> Free]
SetMode(m) == mode' = m /\ UNCHANGED <<dir, ver, store, hd>>
SetDir(d) == dir' = d /\ UNCHANGED <<mode, ver, store, hd>>
SetVer(v) == ver' = v /\ UNCHANGED <<mode, dir, store, hd>>
New(h, c) == hd' = [hd EXCEPT ![h] = [Free EXCEPT !.st = "new", !.c = c]] /\ UNCHANGED <<mode, dir, ver, store>>
\* modes and directory are taken over at the first use
First(h) == hd[h].st = "new"
Used(h) == IF First(h) THEN [hd[h] EXCEPT !.st = "used", !.m = IF mode = "individual" THEN (IF hd[h].c THEN "all" ELSE "none") ELSE mode,
                                          !.d = dir, !.v = ver,
                                          !.have = IF mode = "readonly" THEN store[dir][ver] ELSE {}] ELSE hd[h]
Writes(m) == m \in {"all", "overwrite"}
\* other objects that work on the same entry of the file
Peers(h, x) == {g \in H \ {h} : hd[g].st = "used" /\ hd[g].d = x.d /\ hd[g].v = x.v /\ Writes(hd[g].m)}
Known(h) == LET x == Used(h) IN
  x.have \cup (IF x.m = "all" \/ (x.m = "overwrite" /\ ~First(h)) THEN store[x.d][x.v] ELSE {})
\* an object in mode overwrite empties the entry when it is used first
Base(h) == LET x == Used(h) IN IF First(h) /\ x.m = "overwrite" THEN {} ELSE store[x.d][x.v]
Put(h, is) == LET x == Used(h) IN IF ~Writes(x.m) THEN store ELSE [store EXCEPT ![x.d][x.v] = Base(h) \cup is]
Share(h, x) == [g \in H |-> IF g = h THEN x ELSE IF g \in Peers(h, x) /\ First(h) /\ x.m = "overwrite" THEN [hd[g] EXCEPT !.have = {}] ELSE hd[g]]
Need(h, is) == is \ Known(h)            \* what has to be computed for an access to the items
Get(h, is) == hd[h].st # "free" /\ store' = Put(h, is) /\ UNCHANGED <<mode, dir, ver>>
              /\ hd' = Share(h, [Used(h) EXCEPT !.have = @ \cup is])
\* an access that is interrupted or fails: nothing is known of the items it asked for, everything else stays
Fail(h, is) == hd[h].st # "free" /\ store' = (IF First(h) /\ Writes(Used(h).m) THEN Put(h, {}) ELSE store) /\ UNCHANGED <<mode, dir, ver>>
              /\ hd' = Share(h, Used(h))
Session == hd' = [h \in H |-> Free] /\ UNCHANGED <<mode, dir, ver, store>>
Killed(wrote) == hd' = [h \in H |-> Free] /\ UNCHANGED <<mode, dir, ver>>
                 /\ store' = [d \in D |-> [v \in V |-> IF <<d, v>> \in wrote THEN {} ELSE store[d][v]]]
=============================================================================
