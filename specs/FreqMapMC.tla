---------------------------- MODULE FreqMapMC ----------------------------
(* A result that is calculated on demand, line by line, in any order, and the laws of the maps on a small array. *)
EXTENDS FreqMap
CONSTANTS Dist,     \* possible distances
          M,        \* microphones
          LL,       \* common multiple of the distances
          NF        \* frequency lines
VARIABLES src,      \* distances of the source
          foc,      \* distances of the focus
          flag, val, out
vars == <<src, foc, flag, val, out>>
Geo == [1..M -> Dist]
True(k) == k + 100            \* value of line k, for the history of accesses
Keys == [k : {"int"}, i : {<<i>> : i \in (0 - NF)..(NF - 1)}] \cup [k : {"slice"}, i : {<<a, b>> : a \in (0 - NF)..NF, b \in (0 - NF)..NF}]
        \cup [k : {"list"}, i : {<<0, NF - 1>>, <<0 - 1, 0>>}] \cup [k : {"all"}, i : {<<0>>}]
Init == /\ src \in Geo /\ foc \in Geo
        /\ flag = [k \in 0..(NF - 1) |-> FALSE] /\ val = [k \in 0..(NF - 1) |-> 0] /\ out = <<>>
Read(key) == LET r == Rows(key, NF) need == {r[j] : j \in 1..Len(r)} IN
             /\ flag' = [k \in 0..(NF - 1) |-> flag[k] \/ k \in need]
             /\ val' = [k \in 0..(NF - 1) |-> IF k \in need THEN True(k) ELSE val[k]]
             /\ out' = [j \in 1..Len(r) |-> val'[r[j]]]
             /\ UNCHANGED <<src, foc>>
\* the history of accesses does not depend on the geometry
Next == src = foc /\ (\A m \in 1..M : src[m] = 1) /\ \E key \in Keys : Read(key)
Spec == Init /\ [][Next]_vars
\* every line handed out has its value
LazyOK == (\A j \in 1..Len(out) : out[j] >= 100) /\ \A k \in 0..(NF - 1) : flag[k] = (val[k] = True(k))
Less(a, b) == Dec(a, 6) <= Dec(b, 6)
Eq(a, b) == Red(a) = Red(b)
\* a focus at the source sees its level (inverse, true level), and nowhere does true location see more than there
UnitResponse == \A k \in 0..3 : \A ty \in {"inverse", "true level"} : Eq(Psf(ty, LL, src, 2, src, 2, k), <<1, 1>>)
Located == \A k \in 0..3 : Less(Psf("true location", LL, foc, 1, src, 2, k), Psf("true location", LL, src, 3, src, 2, k))
\* the norms of the steering vectors
Norms == /\ Eq(Norm2("classic", LL, foc, 3), <<1, M>>) /\ Eq(Norm2("true location", LL, foc, 3), <<1, M>>)
\* the reference is a factor
Reference == \A k \in 0..1 : LET a == Psf("true level", LL, foc, 1, src, 1, k) b == Psf("true level", LL, foc, 2, src, 1, k)
             IN Eq(a, <<4 * Red(b)[1], Red(b)[2]>>)
\* a map without diagonal and the diagonal make the full map; a multiple of the identity has no rest
Diagonal == LET C == Outer(Field(LL, src, 1)) g == G("inverse", LL, foc)
                D == [i \in 1..M |-> [j \in 1..M |-> IF i = j THEN C[i][j] ELSE <<0, 0>>]]
            IN Quad(g, foc, 1, C, TRUE) = Quad(g, foc, 1, C, FALSE) + Quad(g, foc, 1, D, TRUE)
NonNegative == \A k \in 0..3 : \A ty \in Types : Psf(ty, LL, foc, 1, src, 1, k)[1] >= 0
\* the components of a complete orthogonal system add up to the norm of the steering vector
Basis == IF M = 2 THEN <<<<<<1, 0>>, <<0, 1>>>>, <<<<1, 0>>, <<0, 0 - 1>>>>>>
         ELSE <<<<<<1, 0>>, <<0, 1>>, <<0, 0>>>>, <<<<1, 0>>, <<0, 0 - 1>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 0>>, <<1, 0>>>>>>
Nn == IF M = 2 THEN <<2, 2>> ELSE <<2, 2, 1>>
Complete == \A ty \in Types : LET g == G(ty, LL, foc) IN
   /\ Mix(g, foc, 1, Basis, Nn, [n \in 1..M |-> 1]) = 4 * T2(g)
   \* functional beamforming with exponent 1 is the sum of the parts, and it decreases with the exponent (Jensen)
   /\ LET one == Functional(ty, LL, foc, 2, 1, Basis, Nn, [n \in 1..M |-> n * n], 1)
          two == Functional(ty, LL, foc, 2, 1, Basis, Nn, [n \in 1..M |-> n], 2)
      IN Dec(two, 4) <= Dec(one, 4)
   \* minimum variance: no more than delay and sum
   /\ Dec(Capon(ty, LL, foc, 2, 1, Basis, Nn, [n \in 1..M |-> n]), 4) * (IF ty = "classic" THEN 1 ELSE 0)
        <= Dec(Functional(ty, LL, foc, 2, 1, Basis, Nn, [n \in 1..M |-> n], 1), 4)
=============================================================================
