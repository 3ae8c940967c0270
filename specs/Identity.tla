------------------------------ MODULE Identity ------------------------------
(* A configurable object: parameters are assigned, its digest and its results are observed, in any order. *)
(* Digest and results depend on the present configuration only (not on what was assigned or observed      *)
(* before, nor on the process), and configurations with the same digest have the same results.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kinds                 \* what is observed besides the digest ("dig"): "res", "props"
VARIABLES cfg,                  \* the present values of the parameters
          seen                  \* what is known: <<kind, configuration, value>>
vars == <<cfg, seen>>
Init == seen = {}
Set(p, v) == cfg' = [cfg EXCEPT ![p] = v] /\ UNCHANGED seen
Rebuild == UNCHANGED vars                             \* a new object with the same values
Learn(k, c, x) == seen' = seen \cup {<<k, c, x>>}
Observe(k, x) == Learn(k, cfg, x) /\ UNCHANGED cfg
\* the clauses
Agrees(k, c, x) == \A s \in seen : s[1] = k /\ s[2] = c => s[3] = x
\* no other configuration with this digest has other results
Separates(c, d) == \A s \in seen : s[1] = "dig" /\ s[3] = d /\ s[2] # c =>
                      \A q, r \in seen : q[1] = "res" /\ r[1] = "res" /\ q[2] = c /\ r[2] = s[2] => q[3] = r[3]
Functional == \A s, t \in seen : s[1] = t[1] /\ s[2] = t[2] => s[3] = t[3]
Identifies == \A s \in seen : s[1] = "dig" => Separates(s[2], s[3])
=============================================================================
