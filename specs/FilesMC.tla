------------------------------ MODULE FilesMC ------------------------------
(* all short histories of writers; emits histories to replay *)
EXTENDS Files, TLC, Json
CONSTANTS Lens, Nums, Lims, NF, MaxOps, Emit
S == << [n |-> 7, c |-> 2, fail |-> NIL], [n |-> 4, c |-> 3, fail |-> NIL], [n |-> 6, c |-> 1, fail |-> 5],
        [n |-> 13, c |-> 2, fail |-> NIL], [n |-> 9, c |-> 2, fail |-> 9] >>
VARIABLES D, w, hist, last
vars == <<D, w, hist, last>>
Op(o, a) == [op |-> o, a |-> a]
NoEnd == [f |-> 0, s |-> 0, lim |-> 0, kind |-> "none", flag |-> TRUE]
Init == D = [f \in 1..NF |-> [s |-> 0, n |-> 0]] /\ w = Off /\ hist = <<>> /\ last = NoEnd
Src == Lens
Open == \E f \in 1..NF, s \in Src, b \in Nums, l \in Lims :
          ~w.on /\ w' = Writer(f, s, b, l) /\ D' = D /\ last' = NoEnd /\ hist' = Append(hist, Op("open", <<f, s, b, l>>))
Go == w.on /\ LET r == Step(S, D, w) IN
        /\ w' = r.w /\ D' = r.d /\ hist' = Append(hist, Op("next", <<>>))
        /\ last' = IF r.kind = "block" THEN NoEnd ELSE [f |-> w.f, s |-> w.s, lim |-> w.lim, kind |-> r.kind, flag |-> w.fresh \/ w.flag]
Drop == w.on /\ w' = Off /\ D' = D /\ last' = NoEnd /\ hist' = Append(hist, Op("drop", <<>>))
Flag == w.on /\ w.flag /\ w' = [w EXCEPT !.flag = FALSE] /\ D' = D /\ last' = NoEnd /\ hist' = Append(hist, Op("flag", <<>>))
Save == \E f \in 1..NF, s \in Src : ~w.on /\ w' = w /\ D' = Saved(S, D, f, s, 4096) /\ last' = NoEnd /\ hist' = Append(hist, Op("save", <<f, s>>))
Crash == \E f \in 1..NF, s \in Src, b \in Nums, k \in 1..3 :
          ~w.on /\ w' = w /\ D' = Steps(S, D, Writer(f, s, b, NIL), k) /\ last' = NoEnd /\ hist' = Append(hist, Op("crash", <<f, s, b, k>>))
Read == \E f \in 1..NF : ~w.on /\ D[f].s # 0 /\ UNCHANGED <<D, w>> /\ last' = NoEnd /\ hist' = Append(hist, Op("read", <<f>>))
Lib == \E a \in 0..1 : ~w.on /\ UNCHANGED <<D, w>> /\ last' = NoEnd /\ hist' = Append(hist, Op("lib", <<a>>))
Next == Len(hist) < MaxOps /\ (Open \/ Go \/ Go \/ Drop \/ Flag \/ Save \/ Crash \/ Read \/ Lib)
Spec == Init /\ [][Next]_vars
\* a file never holds more than its source has, and nothing behind a row that cannot be read
Seen == <<D, w, last, Len(hist)>>
Prefix == \A f \in 1..NF : D[f].s # 0 => D[f].n <= S[D[f].s].n /\ D[f].n < S[D[f].s].fail
\* after a normal end it holds everything that was to be written, however long the blocks
Complete == last.kind = "end" /\ last.flag => D[last.f] = [s |-> last.s, n |-> Min(last.lim, S[last.s].n)]
\* what passed is stored
Stored == w.on /\ ~w.fresh => D[w.f] = [s |-> w.s, n |-> Min(w.lim, w.pos)]
EmitHist == IF Emit /\ Len(hist) = MaxOps THEN PrintT(<<"HIST", ToJson(hist)>>) ELSE TRUE
=============================================================================
