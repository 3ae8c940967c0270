----------------------------- MODULE WindowsMC -----------------------------
(* Every signal length, block size and overlap: the windows cover what they should. *)
EXTENDS Windows, TLC
CONSTANTS MaxN, Sizes, Ovs
VARIABLES n, bs, ov
Init == n \in 0..MaxN /\ bs \in Sizes /\ ov \in Ovs
Next == UNCHANGED <<n, bs, ov>>
Spec == Init /\ [][Next]_<<n, bs, ov>>
C == Count(n, bs, ov)
Good ==
  /\ C >= 0
  /\ \A k \in 0..(C - 1) : Start(k, bs, ov) >= 0 /\ Start(k, bs, ov) + bs <= n
  /\ \A k \in 1..(C - 1) : /\ Start(k, bs, ov) - Start(k - 1, bs, ov) <= (bs + ov - 1) \div ov
                           /\ Start(k, bs, ov) >= Start(k - 1, bs, ov)
  /\ C * bs + ov * bs > n * ov                               \* no window is left out (exact positions)
  /\ (ov = 1 => C = n \div bs)
  /\ \A sh \in 1..5, rn \in 1..7 :                           \* buffer blocks start shift apart and reach the end
       LET b == Blocks(n, rn, sh) IN
       /\ \A k \in 1..Len(b) : Len(b[k]) >= 1 /\ b[k][1] = (k - 1) * sh + 1
       /\ (rn >= sh /\ n > 0 => b[Len(b)][Len(b[Len(b)])] = n)
       /\ (rn = sh => Concat(b) = [i \in 1..n |-> i])
=============================================================================
