------------------------------ MODULE MC_Directory ------------------------------
EXTENDS MKDirectory, Json
CONSTANTS MaxFiles
Names == {"a.txt", "b.txt", "c.csv", "d"}
Exts == {"", ".txt", ".csv", "t"}
Files == {[name |-> n, kind |-> k, recs |-> {[k |-> i, c |-> n] : i \in S}, err |-> e] :
             n \in Names, k \in {"", "P", "Q"}, S \in {{}, {"1"}, {"1", "2"}}, e \in BOOLEAN}
Sane(f) == f.kind = "" => (f.recs = {} /\ ~f.err)
VARIABLES F, q
vars == <<F, q>>
Init == F = {} /\ q = [x \in Exts |-> Start0]
Next == /\ Cardinality(F) < MaxFiles
        /\ \E f \in Files : /\ Sane(f) /\ f.name \notin {g.name : g \in F}
                            /\ F' = F \cup {f} /\ q' = [x \in Exts |-> ReadOne(q[x], f, x)]
Spec == Init /\ [][Next]_vars
Emit == PrintT("D " \o ToJson({[n |-> f.name, i |-> f.kind, r |-> {x.k : x \in f.recs}, e |-> f.err] : f \in F}))

\* in whatever order the files come
OrderIrrelevant == \A x \in Exts : /\ q[x].failed <=> Stops(F, x)
                                   /\ ~q[x].failed => Agrees(q[x], F, x)
Narrower == \A x \in Exts : Keys(Result(F, x).recs) \subseteq Keys(Result(F, "").recs) /\ (Result(F, x).bad => Result(F, "").bad)
=============================================================================
