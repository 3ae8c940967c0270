--------------------------- MODULE SourceTimesMC ---------------------------
(* Fronts that really travel: in every tick each front grows by the speed of sound and the source moves
   on.  What a microphone has heard last is what the closed form of SourceTimes says.            *)
EXTENDS SourceTimes, FiniteSets
CONSTANTS MaxT, Vs, As, Xs, Ms
VARIABLES t, path, m, fronts, heard
vars == <<t, path, m, fronts, heard>>
Init == /\ t = 0 /\ fronts = {} /\ heard = -1
        /\ path \in {<< <<x, v, a>>, <<y, 0, 0>>, <<0, 0, 0>> >> : x \in Xs, v \in Vs, a \in As, y \in {0, 48}}
        /\ m \in {<<x, 0, 0>> : x \in Ms}
\* front: [tau, at (place), rad (radius)]
Reached(f) == Dist2(f.at, m) <= Sq(f.rad)
Next == /\ t < MaxT
        /\ LET grown == {[f EXCEPT !.rad = @ + C] : f \in fronts}
               all == grown \cup {[tau |-> t + 1, at |-> At(path, t + 1), rad |-> 0]}
               got == {f.tau : f \in {g \in all : Reached(g)}}
           IN /\ fronts' = {f \in all : ~Reached(f)}      \* a front passes a microphone once
              /\ heard' = IF got = {} THEN heard ELSE CHOOSE x \in got : \A y \in got : y <= x
        /\ t' = t + 1 /\ UNCHANGED <<path, m>>
Spec == Init /\ [][Next]_vars
\* slower than sound: fronts arrive in the order in which they were emitted
InOrder == \A f \in fronts : f.tau > heard
ClosedForm == heard > 0 => /\ Arrived(path, m, heard, t)
                           /\ \A x \in (heard + 1)..t : ~Arrived(path, m, x, t)
Nothing == heard = -1 => \A x \in 1..t : ~Arrived(path, m, x, t)
\* between two steps of an upsampled signal exactly one or two are the nearest
Q(up) == [path |-> path, up |-> up, start |-> 0, start_t |-> 1]
Unique == \A up \in {1, 2, 4, 16} :
            LET S == {i \in 0..(MaxT \div (64 \div up)) : Heard(Q(up), m, i, t)} IN Cardinality(S) <= 2
=============================================================================
