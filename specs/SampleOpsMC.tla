---------------------------- MODULE SampleOpsMC ----------------------------
(* Laws of the operators, for every small integer matrix. *)
EXTENDS SampleOps, TLC
CONSTANTS MaxRows, Vals
VARIABLES x, y
Mats == UNION {[1..n -> [1..2 -> Vals]] : n \in 1..MaxRows}
Kers == UNION {[1..n -> [1..1 -> Vals]] : n \in 1..2}
Init == x \in Mats /\ y \in Mats
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Delta == <<<<1>>>>
Laws ==
  /\ Reverse(Reverse(x)) = x
  /\ Mix(<<x, y>>, <<1, 1>>) = Mix(<<y, x>>, <<1, 1>>)
  /\ Mix(<<x>>, <<1>>) = x
  /\ AvgSum(x, 1) = x
  /\ Len(AvgSum(x, 2)) = Len(x) \div 2
  /\ Conv(x, Delta) = x
  /\ \A k \in Kers : Len(Conv(x, k)) = Len(x) + Len(k) - 1
  /\ (Len(x) = Len(y) => \A k \in Kers : Conv(Mix(<<x, y>>, <<1, 2>>), k) = Mix(<<Conv(x, k), Conv(y, k)>>, <<1, 2>>))
  /\ CumSum(x)[Len(x)] = [j \in 1..2 |-> SumSeq([m \in 1..Len(x) |-> x[m][j]])]
  /\ Cascade(x, <<<<1, 0, 0, 1, -1, 0>>>>) = CumSum(x)
  /\ Cascade(x, <<<<1, 0, 0, 1, -1, 0>>, <<1, -1, 0, 1, 0, 0>>>>) = x
  /\ Rotate(x, 0) = x /\ Rotate(x, 2) = x
  /\ Groups(x, <<<<0>>, <<1>>>>) = x
  /\ ChMix(x, <<1>>) = Groups(x, <<<<0, 1>>>>)
  /\ Mix(<<Reverse(x)>>, <<3>>) = Reverse(Mix(<<x>>, <<3>>))
=============================================================================
