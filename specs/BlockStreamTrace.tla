-------------------------- MODULE BlockStreamTrace --------------------------
(* Validation of recorded executions of real block-wise objects against BlockStream.

   A trace is a record
     n       length of the abstract output (-1: not known, only the shape of blocks matters)
     cols    number of columns every block must have (0: not checked)
     adv     advertised number of rows (-1: not checked)
     part    TRUE: the block lengths are checked
     ev      events: open(r,n) next(r, rows) end(r) drop(r) exc(r) held(r, rows) src(same)
   where rows are row numbers: row k of `out` is the number k, anything that is no row of
   `out` at that place is 0 or another number.  The row numbers were assigned by comparing the
   delivered row with the reference.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

R == {1, 2, 3}
VARIABLES out, rd, held, t, l, bad
B == INSTANCE BlockStream WITH Readers <- R, NoRow <- 0

T == Traces[t]
E == T.ev[l]
tvars == <<out, rd, held, t, l, bad>>

TraceInit == /\ t \in 1..Len(Traces)
             /\ l = 1 /\ bad = ""
             /\ out = [i \in 1..(IF Traces[t].n < 0 THEN 0 ELSE Traces[t].n) |-> i]
             /\ B!StreamInit

known == T.n >= 0
\* length the partition rule prescribes cannot be known when the output is not known: then any
\* length in 1..num is a legal last block, and a short block is only legal as the last one
LenOK(r, k) == IF ~T.part THEN TRUE
               ELSE /\ k >= 1 /\ k <= rd[r].num /\ ~rd[r].short

Clause ==
  CASE E.e = "open" -> ""
    [] E.e = "drop" -> ""
    [] E.e = "exc"  -> "no-exception"
    [] E.e = "src"  -> IF E.same THEN "" ELSE "user-data-unchanged"
    [] E.e = "dig"  -> IF E.same THEN "" ELSE "digest-unchanged"
    [] E.e = "held" -> IF Len(E.rows) # Len(B!Flat(held[E.r])) \/ E.rows # B!Flat(held[E.r])
                       THEN "held-blocks-unchanged" ELSE ""
    [] E.e = "next" ->
         IF T.part /\ Len(E.rows) = 0 THEN "no-empty-block"
         ELSE IF T.part /\ Len(E.rows) > rd[E.r].num THEN "block-not-longer-than-requested"
         ELSE IF T.part /\ rd[E.r].short THEN "only-last-block-short"
         ELSE IF T.cols > 0 /\ E.w # T.cols THEN "advertised-channels"
         ELSE IF known /\ rd[E.r].pos + Len(E.rows) > Len(out) THEN "no-extra-rows"
         ELSE IF known /\ T.part /\ Len(E.rows) # B!Min(rd[E.r].num, Len(out) - rd[E.r].pos) THEN "block-full-unless-last"
         ELSE IF known /\ E.rows # SubSeq(out, rd[E.r].pos + 1, rd[E.r].pos + Len(E.rows))
              THEN "rows-equal-abstract-output"
         ELSE ""
    [] E.e = "end" ->
         IF known /\ rd[E.r].pos # Len(out) THEN "complete-at-end"
         ELSE IF T.adv >= 0 /\ rd[E.r].pos # T.adv THEN "advertised-samples" ELSE ""

\* a step that satisfies every clause is a step of BlockStream (with the block length the
\* implementation chose when only the concatenation is checked)
Step ==
  CASE E.e = "open" -> /\ rd' = [rd EXCEPT ![E.r] = [st |-> "open", num |-> E.n, pos |-> 0, short |-> FALSE]]
                       /\ held' = [held EXCEPT ![E.r] = <<>>]
    [] E.e = "next" -> /\ held' = [held EXCEPT ![E.r] = Append(@, E.rows)]
                       /\ rd' = [rd EXCEPT ![E.r].pos = @ + Len(E.rows), ![E.r].short = (Len(E.rows) < rd[E.r].num)]
    [] E.e = "end"  -> rd' = [rd EXCEPT ![E.r].st = "done"] /\ UNCHANGED held
    [] E.e = "drop" -> rd' = [rd EXCEPT ![E.r].st = "dropped"] /\ UNCHANGED held
    [] OTHER -> UNCHANGED <<rd, held>>

\* when output and partition are both known the step is literally an action of the design
Refines == (known /\ T.part /\ Clause = "") =>
  CASE E.e = "open" -> B!Open(E.r, E.n)
    [] E.e = "next" -> B!Deliver(E.r)
    [] E.e = "end"  -> B!End(E.r)
    [] E.e = "drop" -> B!Drop(E.r)
    [] OTHER -> TRUE

TraceNext ==
  /\ l <= Len(T.ev) /\ bad = ""
  /\ UNCHANGED <<t, out>>
  /\ IF Clause = ""
     THEN /\ Step
          /\ Assert(Refines, <<"step is no action of BlockStream", t, l>>)
          /\ l' = l + 1 /\ bad' = ""
          /\ (l = Len(T.ev) => PrintT(<<"VERDICT", t, l, "ok">>))
     ELSE /\ bad' = Clause /\ l' = l /\ UNCHANGED <<rd, held>>
          /\ PrintT(<<"VERDICT", t, l, Clause>>)

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
