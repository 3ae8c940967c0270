------------------------------- MODULE Files -------------------------------
(* Files of time histories: a writer stores what passes through it block by block; a file always holds
   the first rows of what was written to it last, whatever ended the writing. *)
EXTENDS Integers, Sequences, FiniteSets
NIL == 99999999
Min(a, b) == IF a < b THEN a ELSE b
\* channel c (from 1) of row i (from 1) of source s
Value(s, i, c) == 1000000 * s + 100 * i + c
\* sources: [n |-> rows, c |-> channels, fail |-> row that cannot be read (or NIL)]
\* files:   [s |-> source (0: there is no file), n |-> rows]
\* writer:  [on, fresh, f, s, num, lim, pos, flag]
Off == [on |-> FALSE, fresh |-> FALSE, f |-> 1, s |-> 1, num |-> 1, lim |-> NIL, pos |-> 0, flag |-> TRUE]
Writer(f, s, num, lim) == [on |-> TRUE, fresh |-> TRUE, f |-> f, s |-> s, num |-> num, lim |-> lim, pos |-> 0, flag |-> TRUE]
\* one step of reading through the writer: [w, d, kind, n]: kind is "block" of n rows, "end", or "fail"
Over(w) == (~w.fresh /\ ~w.flag) \/ w.pos >= w.lim
Step(S, D, w) ==
  LET D0 == IF w.fresh THEN [D EXCEPT ![w.f] = [s |-> w.s, n |-> 0]] ELSE D
      w0 == [w EXCEPT !.fresh = FALSE, !.flag = IF w.fresh THEN TRUE ELSE w.flag]
      src == S[w.s]
      n == Min(w.num, src.n - w.pos)
      store == Min(n, w.lim - w.pos)
  IN IF Over(w) \/ (n = 0 /\ src.fail = NIL) THEN [w |-> Off, d |-> D0, kind |-> "end", n |-> 0]
     ELSE IF src.fail <= w.pos + w.num THEN [w |-> Off, d |-> D0, kind |-> "fail", n |-> 0]
     ELSE IF n = 0 THEN [w |-> Off, d |-> D0, kind |-> "end", n |-> 0]
     ELSE [w |-> [w0 EXCEPT !.pos = w.pos + n], d |-> [D0 EXCEPT ![w.f].n = @ + store], kind |-> "block", n |-> n]
\* k steps, then the process ends
RECURSIVE Steps(_, _, _, _)
Steps(S, D, w, k) == IF k = 0 \/ ~w.on THEN D ELSE LET r == Step(S, D, w) IN Steps(S, r.d, r.w, k - 1)
\* all at once, in blocks of b rows
Saved(S, D, f, s, b) == Steps(S, D, Writer(f, s, b, NIL), S[s].n \div b + 2)
=============================================================================
