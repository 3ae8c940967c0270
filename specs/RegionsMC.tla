----------------------------- MODULE RegionsMC -----------------------------
(* The definitions against each other on a lattice: every state is a region, moved step by step. *)
EXTENDS Regions
CONSTANTS M
VARIABLES e, sh
vars == <<e, sh>>
Pts == {<<x, y, 0>> : x \in 0..M, y \in 0..M}
Tri == {<<x1, y1, x2, y2, x3, y3>> : x1 \in {0, 2}, y1 \in {0, 1}, x2 \in {1, M}, y2 \in {0, 2}, x3 \in {0, 3}, y3 \in {2, M}}
Area(f) == Cross2(V(f, 1), V(f, 2), V(f, 3))
Init == e \in {f \in Tri : Area(f) # 0} /\ sh = 0
\* rotate the list of corners, or reverse it: the region is the same
Rot(f) == SubSeq(f, 3, Len(f)) \o SubSeq(f, 1, 2)
Rev(f) == <<f[5], f[6], f[3], f[4], f[1], f[2]>>
Next == sh < 3 /\ sh' = sh + 1 /\ e' \in {Rot(e), Rev(e)}
Spec == Init /\ [][Next]_vars
S(k, f, b) == [kind |-> k, e |-> f, border |-> b, nearest |-> FALSE]
\* triangles are convex: both definitions agree, with and without border, for every order of the corners
Agree == \A p \in Pts, b \in BOOLEAN : InPoly(S("poly", e, b), p) = InHull(S("hull", e, b), p)
SameRegion == \A p \in Pts : InPoly(S("poly", e, TRUE), p) = InPoly(S("poly", Rot(e), TRUE), p)
\* a rectangle as polygon is the rectangle; inner points plus border is everything
RectPoly == \A b \in BOOLEAN, p \in Pts :
   LET q == <<1, 1, 3, 1, 3, 2, 1, 2>> IN
   InPoly(S("poly", q, b), p) = InRect([border |-> b, x1 |-> 3, x2 |-> 1, y1 |-> 1, y2 |-> 2], p)
Border == \A p \in Pts : InPoly(S("poly", e, TRUE), p) <=> (InPoly(S("poly", e, FALSE), p) \/ OnBorder(e, p))
\* cutting off a corner: the parts of a quadrilateral cover it
Numbering == LET x == [lo |-> 0, hi |-> 3, inc |-> 1]
                 y == [lo |-> 2, hi |-> 6, inc |-> 2]
             IN /\ Len(Rect(x, y)) = 12
                /\ \A i \in 0..3, j \in 0..2 : Rect(x, y)[i * 3 + j + 1] = <<i, 2 + 2 * j>>
                /\ \A i \in 0..3 : Nearest(x, i) = i
=============================================================================
