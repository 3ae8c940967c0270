------------------------------ MODULE Splitter ------------------------------
(* A splitter distributes the blocks 1..N of its source to the buffers of registered consumers. Each call of
   next by a consumer is one step: it takes the oldest block of its own buffer, or, if that is empty, the next
   block of the source is appended to the buffers of all registered consumers first. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS C, MaxSize            \* consumers
VARIABLES S                     \* the whole state in one record, so that traces can carry it

\* S.n blocks; S.pos blocks taken from the source; S.live: a pass is running; S.over: overflow was detected
\* S.reg: registered; S.buf, S.size, S.treat, S.st per consumer; S.lost: blocks dropped per consumer
Treat == {"error", "warning", "none"}
Idle == [n |-> 0, pos |-> 0, live |-> FALSE, over |-> FALSE, warns |-> 0, reg |-> [c \in C |-> FALSE], buf |-> [c \in C |-> <<>>],
         size |-> [c \in C |-> 1], treat |-> [c \in C |-> "error"], st |-> [c \in C |-> "idle"], lost |-> [c \in C |-> 0],
         got |-> [c \in C |-> <<>>]]
Push(b, k, size) == IF Len(b) < size THEN Append(b, k) ELSE Append(Tail(b), k)

Register(c, size, treat) ==
  /\ ~S.reg[c]
  /\ S' = [S EXCEPT !.reg[c] = TRUE, !.buf[c] = <<>>, !.size[c] = size, !.treat[c] = treat, !.st[c] = "idle", !.lost[c] = 0, !.got[c] = <<>>]
Remove(c) == S.reg[c] /\ S' = [S EXCEPT !.reg[c] = FALSE, !.buf[c] = <<>>]

\* a pass may only be started anew when nobody is in the middle of the old one
CanStart == S.live \/ \A d \in C : S.reg[d] => S.st[d] # "reading"
Open(c) == [S EXCEPT !.st[c] = "reading",
            !.live = TRUE, !.pos = IF S.live THEN @ ELSE 0, !.over = IF S.live THEN @ ELSE FALSE,
            !.buf = IF S.live THEN @ ELSE [d \in C |-> <<>>],
            !.lost = IF S.live THEN @ ELSE [d \in C |-> 0],
            !.got = IF S.live THEN [@ EXCEPT ![c] = <<>>] ELSE [d \in C |-> <<>>]]
Full(s) == {d \in C : s.reg[d] /\ Len(s.buf[d]) = s.size[d]}
Fill(s) == LET k == s.pos + 1 IN
  [s EXCEPT !.pos = k, !.over = \E d \in Full(s) : s.treat[d] = "error",
            !.warns = @ + Cardinality({d \in Full(s) : s.treat[d] = "warning"}),
            !.lost = [d \in C |-> s.lost[d] + (IF d \in Full(s) THEN 1 ELSE 0)],
            !.buf = [d \in C |-> IF s.reg[d] THEN Push(s.buf[d], k, s.size[d]) ELSE s.buf[d]]]
\* the outcome of one call: <<what, block>>
Call(c) == LET s == IF S.st[c] = "idle" /\ S.reg[c] THEN Open(c) ELSE S IN
  IF ~S.reg[c] THEN [out |-> <<"error", 0>>, s |-> [s EXCEPT !.st[c] = "dead"]]
  ELSE IF s.over THEN [out |-> <<"error", 0>>, s |-> [s EXCEPT !.st[c] = "dead"]]
  ELSE IF s.buf[c] # <<>> THEN [out |-> <<"block", Head(s.buf[c])>>, s |-> [s EXCEPT !.buf[c] = Tail(@), !.got[c] = Append(@, Head(s.buf[c]))]]
  ELSE IF s.pos = s.n THEN [out |-> <<"end", 0>>, s |-> [s EXCEPT !.live = FALSE, !.st[c] = "idle"]]
  ELSE LET f == Fill(s) IN
       IF f.over THEN [out |-> <<"error", 0>>, s |-> [f EXCEPT !.st[c] = "dead"]]
       ELSE [out |-> <<"block", Head(f.buf[c])>>, s |-> [f EXCEPT !.buf[c] = Tail(@), !.got[c] = Append(@, Head(f.buf[c]))]]
Next1(c) == /\ S.st[c] # "dead" /\ (S.st[c] = "idle" => S.reg[c] /\ CanStart) /\ S' = Call(c).s

\* ---- what the user relies on ----
Increasing == \A c \in C : \A i, j \in 1..Len(S.got[c]) : i < j => S.got[c][i] < S.got[c][j]
\* nothing is lost silently: gaps only with a policy that allows them, and only after the buffer was full
NoSilentLoss == \A c \in C : LET g == S.got[c] IN
  (S.reg[c] /\ S.treat[c] = "error" /\ ~S.over) => S.lost[c] = 0 /\ \A i \in 1..(Len(g) - 1) : g[i + 1] = g[i] + 1
Accounted == \A c \in C : (S.reg[c] /\ S.live /\ S.pos > 0 /\ S.got[c] # <<>> /\ S.got[c][1] = 1) =>
   S.pos = Len(S.got[c]) + Len(S.buf[c]) + S.lost[c]
Bounded == \A c \in C : Len(S.buf[c]) <= S.size[c]
=============================================================================
