------------------------------- MODULE MC_Merge -------------------------------
(* Merging three small graphs: union, sums, commutativity, associativity.      *)
EXTENDS MKGraph, Json, TLC
CONSTANTS Weights, Directed, Missing, NoCount
VARIABLES x, y, z, ph
vars == <<x, y, z, ph>>
NodeIds == {1, 2}
Pairs == {p \in NodeIds \X NodeIds : Directed \/ p[1] <= p[2]}
Mk(c, E) == [directed |-> Directed, multi |-> FALSE, nodes |-> {[id |-> i, c |-> c[i], at |-> {}] : i \in {j \in NodeIds : c[j] # 0}},
             edges |-> {[a |-> p[1], b |-> p[2], key |-> "", w |-> E[p], at |-> {}] : p \in {q \in Pairs : E[q] # 0 /\ c[q[1]] # 0 /\ c[q[2]] # 0}}]
Gs == {Mk(c, E) : c \in [NodeIds -> {0, 1} \cup (IF NoCount THEN {None} ELSE {})], E \in [Pairs -> {0} \cup Weights \cup (IF Missing THEN {None} ELSE {})]}
Empty == Mk([i \in NodeIds |-> 0], [p \in Pairs |-> 0])
Init == x = Empty /\ y = Empty /\ z = Empty /\ ph = 0
Next == \/ ph = 0 /\ ph' = 1 /\ x' \in Gs /\ UNCHANGED <<y, z>>
        \/ ph = 1 /\ ph' = 2 /\ y' \in Gs /\ UNCHANGED <<x, z>>
        \/ ph = 2 /\ ph' = 3 /\ z' \in Gs /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars
WF == WellFormed(Merge(x, y))
Comm == Sums(Merge(x, y)) = Sums(Merge(y, x))
Assoc == ph = 3 => Sums(Merge(Merge(x, y), z)) = Sums(Merge(x, Merge(y, z)))
Unit == Merge(x, Empty) = x /\ Merge(Empty, x) = x
Covers == Ids(Merge(x, y)) = Ids(x) \cup Ids(y) /\ {Keyed(e) : e \in Merge(x, y).edges} = {Keyed(e) : e \in x.edges \cup y.edges}
Emit == ph = 3 /\ ph' = 4 /\ UNCHANGED <<x, y, z>> /\ PrintT("T " \o ToJson(<<x, y, z>>))
SpecEmit == Init /\ [][Next \/ Emit]_vars
=============================================================================
