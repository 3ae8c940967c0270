---------------------------- MODULE BlockStream ----------------------------
(* A block-wise data object of the signal processing graph.

   The object stands for one abstract output: the sequence `out` of rows
   (samples over all channels).  A reader opens the object with a block
   length n, draws blocks, reaches the end or drops the reader.  Several
   readers of one object are independent, nothing that a reader does changes
   `out`, and a block that was handed out stays what it was.             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Readers,     \* names of readers of the one object
          NoRow        \* a value that is no row (a broken object would show it)

VARIABLES out,         \* the abstract output: a sequence of rows
          rd,          \* reader -> [st, num, pos, ends]
          held         \* reader -> sequence of blocks the reader holds

svars == <<out, rd, held>>

Min(a, b) == IF a < b THEN a ELSE b

Idle == [st |-> "idle", num |-> 0, pos |-> 0, short |-> FALSE]

\* the block a reader gets next
BlockOf(o, r) == SubSeq(o, r.pos + 1, Min(r.pos + r.num, Len(o)))

StreamInit == /\ rd = [r \in Readers |-> Idle]
              /\ held = [r \in Readers |-> <<>>]

Open(r, n) ==
  /\ n >= 1
  /\ rd[r].st # "open"
  /\ rd' = [rd EXCEPT ![r] = [st |-> "open", num |-> n, pos |-> 0, short |-> FALSE]]
  /\ held' = [held EXCEPT ![r] = <<>>]
  /\ UNCHANGED out

Deliver(r) ==
  /\ rd[r].st = "open"
  /\ rd[r].pos < Len(out)
  /\ LET b == BlockOf(out, rd[r]) IN
       /\ held' = [held EXCEPT ![r] = Append(@, b)]
       /\ rd' = [rd EXCEPT ![r].pos = @ + Len(b), ![r].short = (Len(b) < rd[r].num)]
  /\ UNCHANGED out

End(r) ==
  /\ rd[r].st = "open"
  /\ rd[r].pos = Len(out)
  /\ rd' = [rd EXCEPT ![r].st = "done"]
  /\ UNCHANGED <<out, held>>

Drop(r) ==
  /\ rd[r].st = "open"
  /\ rd' = [rd EXCEPT ![r].st = "dropped"]
  /\ UNCHANGED <<out, held>>

------------------------------------------------------------------------------
(* What users rely on *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

\* every block is full but the last one, and none is empty
Partition == \A r \in Readers : \A i \in 1..Len(held[r]) :
               /\ Len(held[r][i]) >= 1
               /\ Len(held[r][i]) <= rd[r].num
               /\ (i < Len(held[r]) => Len(held[r][i]) = rd[r].num)

\* the concatenation does not depend on block length, other readers or history
PrefixOfOut == \A r \in Readers : Flat(held[r]) = SubSeq(out, 1, rd[r].pos)
Complete    == \A r \in Readers : rd[r].st = "done" => Flat(held[r]) = out

\* nothing that is read changes the object, blocks in hand never change
Stable == [][ /\ out' = out
              /\ \A r \in Readers : \/ rd[r].st # "open"
                                    \/ \A i \in 1..Len(held[r]) : held'[r][i] = held[r][i] ]_svars
=============================================================================
