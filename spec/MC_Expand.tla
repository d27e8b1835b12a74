------------------------------ MODULE MC_Expand ------------------------------
(***************************************************************************)
(* The expansion of the core of a network, record by record in any order    *)
(* and author by author, against what a user is promised of the result.     *)
(* Skip: the design that adds no edge between two nodes that both were      *)
(* there already (networks without weights once lacked those edges).        *)
(***************************************************************************)
EXTENDS MKNetwork, TLC
CONSTANTS Skip, Directed, Records
Ids == {"a", "b", "c", "x"}
Rows == {<<"a">>, <<"a", "b">>, <<"b", "a">>, <<"c", "b", "a">>, <<"a", "c">>, <<"b", "b", "c">>}
VARIABLES base, V, todo, g
vars == <<base, V, todo, g>>
Both(p) == IF Directed THEN {p} ELSE {p, <<p[2], p[1]>>}
Init == /\ V \in {S \in SUBSET Rows : Cardinality(S) <= Records}
        /\ base \in {[n |-> n, e |-> UNION {Both(p) : p \in e}] : n \in SUBSET Ids,
                     e \in {d \in SUBSET {<<"a", "x">>, <<"x", "a">>, <<"b", "x">>, <<"a", "b">>, <<"a", "a">>} : TRUE}}
        /\ \A p \in base.e : p[1] \in base.n /\ p[2] \in base.n
        /\ todo = V /\ g = base
\* the pairs of a row, in the order they are looked at
RECURSIVE Pairs(_, _, _)
Pairs(v, i, j) == IF i >= Len(v) THEN <<>> ELSE IF j > Len(v) THEN Pairs(v, i + 1, i + 2) ELSE <<<<v[i], v[j]>>>> \o Pairs(v, i, j + 1)
One(h, p) == IF p[1] \notin h.n THEN h
             ELSE LET new == p[2] \notin h.n
                      e1 == IF new \/ ~Skip THEN h.e \cup Both(p) ELSE h.e
                  IN [n |-> h.n \cup {p[2]}, e |-> e1 \cup UNION {Both(<<p[2], q[2]>>) : q \in {q \in e1 : q[1] = p[1]}}]
RECURSIVE Through(_, _)
Through(h, q) == IF q = <<>> THEN h ELSE Through(TLCEval(One(h, q[1])), SubSeq(q, 2, Len(q)))
Next == \E v \in todo : todo' = todo \ {v} /\ g' = Through(g, Pairs(v, 1, 2)) /\ UNCHANGED <<base, V>>
Spec == Init /\ [][Next]_vars
Promised == /\ ExKept(base, g) /\ ExOnly(base, g, V) /\ ExTouches(base, g, V)
            /\ LET D == V \ todo IN ExEvery(base, g, D) /\ ExBetween(base, g, D) /\ ExCopied(base, g, D)
=============================================================================
