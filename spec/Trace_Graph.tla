------------------------------ MODULE Trace_Graph ------------------------------
EXTENDS MKTrace, MKGraph
(* The state is a function from variable name to graph. *)
At(q) == SeqRange(q)
G(o) == [directed |-> o.directed, multi |-> o.multi,
         nodes |-> {[id |-> o.nodes[i].id, c |-> o.nodes[i].c, at |-> At(o.nodes[i].at)] : i \in 1..Len(o.nodes)},
         edges |-> {[a |-> o.edges[i].a, b |-> o.edges[i].b, key |-> o.edges[i].key, w |-> o.edges[i].w, at |-> At(o.edges[i].at)] : i \in 1..Len(o.edges)}]
\* the recorder wrote every node and edge once
Exact(o) == Cardinality(G(o).nodes) = Len(o.nodes) /\ Cardinality(G(o).edges) = Len(o.edges)
MyInit(case) == [i \in 1..Len(case.graphs) |-> G(case.graphs[i])]

Compare(what, want, o) == LET g == G(o) IN
    {<<what \o ": nodes", Ids(g) = Ids(want)>>,
     <<what \o ": node attributes", Ids(g) = Ids(want) => g.nodes = want.nodes>>,
     <<what \o ": edges", {Keyed(e) : e \in g.edges} = {Keyed(e) : e \in want.edges}>>,
     <<what \o ": edge attributes", {Keyed(e) : e \in g.edges} = {Keyed(e) : e \in want.edges} => g.edges = want.edges>>,
     <<what \o ": kind of graph", g.directed = want.directed /\ g.multi = want.multi /\ Exact(o)>>}
Edit(s, e) ==
    LET g == s[e.v]
        r == CASE e.op = "edges" -> DropEdges(g, e.lo, e.hi, e.lenient, e.loops)
               [] e.op = "degree" -> DropByDegree(g, e.lo, e.hi, e.useWeight, e.lenient)
               [] e.op = "count" -> DropByCount(g, e.lo, e.hi, e.lenient)
    IN [st |-> [s EXCEPT ![e.v] = r.g],
        bad |-> Failing({<<"drop " \o e.op \o ": outcome", e.out = r.out>>} \cup Compare("drop " \o e.op, r.g, e.g))]
Table(s, e) ==
    LET g == s[e.v]
        ids == {e.table[i][1] : i \in 1..Len(e.table)}
        d(x) == DegTable(g, x, e.weighted, e.way)
        most == MaxOf({d(x) : x \in Ids(g)})
    IN Failing({<<"degrees: nodes", Len(e.table) = Cardinality(ids) /\ ids = Ids(g)>>,
                <<"degrees: values", ids = Ids(g) => \A i \in 1..Len(e.table) : e.table[i][2] = d(e.table[i][1])>>,
                <<"degrees: distribution", g.nodes # {} => e.dist = [k \in 1..(most + 1) |-> Cardinality({x \in Ids(g) : d(x) = k - 1})]>>})
Stats(s, e) ==
    LET g == s[e.v]
        true(k) == CASE k = "nodes" -> <<NNodes(g), 1>> [] k = "edges" -> <<NEdges(g), 1>> [] k = "isolates" -> <<Isolates(g), 1>>
                     [] k = "loops" -> <<Loops(g), 1>> [] k = "density" -> Density(g) [] k = "transitivity" -> Transitivity(g)
    IN {"statistic: " \o e.got[i][1] : i \in {j \in 1..Len(e.got) : ~SameFraction(<<e.got[j][2], e.got[j][3]>>, true(e.got[j][1]))}}
       \cup Failing({<<"statistics: those asked for", e.form = "tuple" => [i \in 1..Len(e.got) |-> e.got[i][1]] = e.asked>>,
                     <<"statistics: those asked for, in words", e.form # "tuple" => {e.got[i][1] : i \in 1..Len(e.got)} = SeqRange(e.asked) /\ Len(e.got) = Cardinality(SeqRange(e.asked))>>})
MergeEv(s, e) ==
    LET w == MergeKeep(s[e.t], s[e.s], e.incN, e.incE)
        g == G(e.g)
        Names(at) == {p[1] : p \in at}
        \* what both have keeps the attributes of the first; it may gain those only the second has
        NodeAt(x) == LET mine == Node(w, x).at
                         more == IF HasNode(s[e.t], x) /\ HasNode(s[e.s], x) THEN {p \in Node(s[e.s], x).at : p[1] \notin Names(mine)} ELSE {}
                     IN mine \subseteq Node(g, x).at /\ Node(g, x).at \subseteq mine \cup more
        EdgeAt(k) == LET mine == (CHOOSE f \in EdgeLike(w, k) : TRUE).at
                         F == EdgeLike(s[e.s], k)
                         more == IF EdgeLike(s[e.t], k) # {} /\ F # {} THEN {p \in (CHOOSE f \in F : TRUE).at : p[1] \notin Names(mine)} ELSE {}
                         seen == (CHOOSE f \in EdgeLike(g, k) : TRUE).at
                     IN mine \subseteq seen /\ seen \subseteq mine \cup more
        same == Ids(g) = Ids(w) /\ {Keyed(f) : f \in g.edges} = {Keyed(f) : f \in w.edges}
    IN [st |-> [s EXCEPT ![e.t] = g],
        bad |-> Failing({<<"merge: nodes", Ids(g) = Ids(w)>>,
                         <<"merge: edges", {Keyed(f) : f \in g.edges} = {Keyed(f) : f \in w.edges}>>,
                         <<"merge: sums", same => Sums(g) = Sums(w)>>,
                         <<"merge: attributes of nodes", same => \A x \in Ids(w) : NodeAt(x)>>,
                         <<"merge: attributes of edges", same => \A f \in w.edges : EdgeAt(Keyed(f))>>,
                         <<"merge: kind of graph", g.directed = w.directed /\ g.multi = w.multi /\ Exact(e.g)>>} \cup Compare("merge leaves the second graph", s[e.s], e.other))]
\* the sums of a merged graph, compared with those of another
SameSums(s, e) == Failing({<<"merge: " \o e.what, Sums(s[e.t]) = Sums(s[e.s])>>})

MyStep(s, e) == CASE e.op \in {"edges", "degree", "count"} -> Edit(s, e)
                  [] e.op = "table" -> [st |-> s, bad |-> Table(s, e)]
                  [] e.op = "stats" -> [st |-> s, bad |-> Stats(s, e)]
                  [] e.op = "merge" -> MergeEv(s, e)
                  [] e.op = "unchanged" -> [st |-> s, bad |-> Failing(Compare("unchanged", s[e.v], e.g))]
                  [] e.op = "refused" -> [st |-> s, bad |-> Failing({<<"refused: " \o e.what, e.out \in SeqRange(e.want)>>})]
=============================================================================
