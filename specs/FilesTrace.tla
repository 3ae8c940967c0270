---------------------------- MODULE FilesTrace ----------------------------
EXTENDS Files, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, bad, D, w
T == Traces[t]
E == T.ev[l]
S == T.src
TraceInit == /\ t \in 1..Len(Traces) /\ l = 1 /\ bad = "" /\ w = Off
             /\ D = [f \in 1..3 |-> [s |-> 0, n |-> 0]]
\* rows from..to of channels ch of source s, as runs <<first row, number of rows>>
Runs(s, from, to, ch) == IF to < from THEN <<>> ELSE << <<[k \in 1..Len(ch) |-> Value(s, from, ch[k])], to - from + 1>> >>
All(s) == [k \in 1..S[s].c |-> k]
R == Step(S, D, w)
NextOk == IF E.kind # R.kind THEN (IF R.kind = "block" THEN "goes on" ELSE IF R.kind = "fail" THEN "error of the source" ELSE "ends")
          ELSE IF R.kind = "block" /\ E.out # Runs(w.s, w.pos + 1, w.pos + R.n, All(w.s)) THEN "data pass unchanged"
          ELSE ""
SaveOk == IF (E.kind = "fail") # (S[E.a[2]].fail <= S[E.a[2]].n) THEN "error of the source" ELSE ""
\* start, stop (from 0), channels (from 1) that are read
ReadOk == LET d == D[E.a[1]]
              ch == SelectSeq(All(d.s), LAMBDA c : ~\E i \in 1..Len(E.inv) : E.inv[i] = c)
              to == Min(E.stop, d.n) IN
  IF to <= E.start THEN (IF E.kind = "none" THEN "" ELSE "an empty file is refused")
  ELSE IF E.kind # "block" THEN "file can be read"
  ELSE IF E.out # Runs(d.s, E.start + 1, to, ch) THEN "file holds what was written"
  ELSE IF E.ns # to - E.start \/ E.nc # Len(ch) \/ E.fs # S[d.s].fs THEN "attributes of the file"
  ELSE IF E.dtype # T.prec THEN "precision of the file"
  ELSE ""
WavOk ==    \* 16 bit, largest value 90%
  LET M == CHOOSE m \in {Abs1 : Abs1 \in {IF E.data[i][c] < 0 THEN -E.data[i][c] ELSE E.data[i][c] : i \in 1..Len(E.data), c \in {E.ch[k] : k \in 1..Len(E.ch)}}} :
             \A i \in 1..Len(E.data), k \in 1..Len(E.ch) : E.data[i][E.ch[k]] <= m /\ -E.data[i][E.ch[k]] <= m
      Q(v) == IF M = 0 THEN 0 ELSE IF v < 0 THEN -(((-v) * 294912) \div (10 * M)) ELSE (v * 294912) \div (10 * M)
      Near(a, b) == a - b <= 1 /\ b - a <= 1
  IN IF E.head # <<Len(E.ch), 2, E.fs, Len(E.data)>> THEN "head of the wave file"
     ELSE IF Len(E.out) # Len(E.data) THEN "samples of the wave file"
     ELSE IF \E i \in 1..Len(E.out) : \E k \in 1..Len(E.ch) : ~Near(E.out[i][k], Q(E.data[i][E.ch[k]])) THEN "samples of the wave file" ELSE ""
Clause == IF E.x # "" THEN "no exception"
          ELSE CASE E.op \in {"open", "drop", "flag", "lib", "crash"} -> ""
                 [] E.op = "next" -> NextOk
                 [] E.op = "save" -> SaveOk
                 [] E.op = "read" -> ReadOk
                 [] E.op = "wav" -> WavOk
                 [] E.op = "same" -> IF E.got = E.want THEN "" ELSE "reads what was written"
Effect == LET r == R IN
  /\ w' = CASE E.op = "open" -> Writer(E.a[1], E.a[2], E.a[3], E.a[4])
            [] E.op = "next" -> r.w
            [] E.op = "drop" -> Off
            [] E.op = "flag" -> [w EXCEPT !.flag = FALSE]
            [] OTHER -> w
  /\ D' = CASE E.op = "next" -> r.d
            [] E.op = "save" -> Saved(S, D, E.a[1], E.a[2], 4096)
            [] E.op = "crash" -> Steps(S, D, Writer(E.a[1], E.a[2], E.a[3], NIL), E.a[4])
            [] OTHER -> D
TraceNext ==
  /\ l <= Len(T.ev) /\ bad = "" /\ UNCHANGED t
  /\ IF Clause = "" THEN /\ l' = l + 1 /\ bad' = "" /\ Effect
                         /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ UNCHANGED <<l, D, w>> /\ PrintT(<<"VERDICT", t, l, Clause>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<t, l, bad, D, w>>
=============================================================================
