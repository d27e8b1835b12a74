------------------------------- MODULE MC_Mapping -------------------------------
(* Two mappings changed in every way: one value per key, only the changed mapping *)
(* changes, and merging keeps every value that is not empty.                      *)
EXTENDS MKMapping
CONSTANTS K, V, Depth, Design
VARIABLES a, b, n, last
vars == <<a, b, n, last>>
Maps == UNION {{{<<k, f[k]>> : k \in S} : f \in [S -> V]} : S \in SUBSET K}
Init == a \in Maps /\ b \in Maps /\ n = 0 /\ last = "none"
Step(x) == n < Depth /\ n' = n + 1 /\ last' = x
Merge(x, y) == IF Design = "replace" THEN {p \in x : p[1] \notin Keys(y)} \cup y ELSE Fill(x, y)
Next == \/ \E k \in K, v \in V : Step("a") /\ a' = Put(a, k, v) /\ b' = IF Design = "shared" /\ a = b THEN Put(b, k, v) ELSE b
        \/ \E k \in K : Step("a") /\ a' = Del(a, k) /\ b' = b
        \/ Step("copy") /\ b' = a /\ a' = a
        \/ n = 0 /\ Step("fill") /\ a' = Merge(a, b) /\ b' = b
        \/ n = 0 /\ Step("over") /\ a' = Over(a, b) /\ b' = b
Spec == Init /\ [][Next]_vars
OneValue == \A m \in {a, b} : \A p, q \in m : p[1] = q[1] => p = q
Frame == [][last' \in {"a", "fill", "over"} => b' = b]_vars
Kept == [][last' = "fill" => /\ \A p \in a \cup b : p[2] # "" => /\ p[1] \in Keys(a')
                                                               /\ \E i, j \in 1..Len(Val(a', p[1])) : SubSeq(Val(a', p[1]), i, j) = p[2]
                             /\ Keys(a) \subseteq Keys(a')]_vars
Replaced == [][last' = "over" => /\ b \subseteq a' /\ Keys(a') = Keys(a) \cup Keys(b)]_vars
=============================================================================
