------------------------------- MODULE MKGraph -------------------------------
(***************************************************************************)
(* Graphs and what the graph helpers do to them.                            *)
(*                                                                          *)
(* A graph is [directed, multi, nodes, edges]: nodes a set of [id, c, at],  *)
(* edges a set of [a, b, key, w, at] (a <= b in an undirected graph by the  *)
(* recorder's convention; key "" in a simple graph).  c and w are the        *)
(* numeric attribute in question, None when missing; at the set of the      *)
(* other attributes as <<name, value>>.                                     *)
(***************************************************************************)
EXTENDS MKCommon
None == -1000000     \* an absent number / bound

Ids(g) == {n.id : n \in g.nodes}
Node(g, x) == CHOOSE n \in g.nodes : n.id = x
Loop(e) == e.a = e.b
Touches(e, x) == e.a = x \/ e.b = x
Without(g, X) == [g EXCEPT !.nodes = {n \in @ : n.id \notin X}, !.edges = {e \in @ : e.a \notin X /\ e.b \notin X}]
WellFormed(g) == /\ \A n, m \in g.nodes : n.id = m.id => n = m
                 /\ \A e \in g.edges : e.a \in Ids(g) /\ e.b \in Ids(g)
                 /\ \A e, f \in g.edges : (e.a = f.a /\ e.b = f.b /\ e.key = f.key) => e = f

Within(v, lo, hi) == (lo = None \/ v >= lo) /\ (hi = None \/ v <= hi)
(*------------------------------- edits ------------------------------------*)
\* result: [g |-> graph, out |-> "ok" or the exception]; a refused edit may have dropped the loops only
DropLoops(g) == [g EXCEPT !.edges = {e \in @ : ~Loop(e)}]
DropEdges(g, lo, hi, lenient, loops) ==
    LET h == IF loops THEN DropLoops(g) ELSE g
    IN IF (lo # None \/ hi # None) /\ ~lenient /\ \E e \in h.edges : e.w = None
       THEN [g |-> h, out |-> "KeyError"]
       ELSE [g |-> [h EXCEPT !.edges = {e \in @ : e.w = None \/ Within(e.w, lo, hi)}], out |-> "ok"]
\* degree of x: the weights of the edges touching it (a self loop touches it once)
EdgesAt(g, x) == {e \in g.edges : Touches(e, x)}
WeightAt(g, x) == LET E == EdgesAt(g, x) IN SumSet(E, [e \in E |-> IF e.w = None THEN 1 ELSE e.w])
DropByDegree(g, lo, hi, useWeight, lenient) ==
    IF useWeight /\ ~lenient /\ \E e \in g.edges : e.w = None THEN [g |-> g, out |-> "KeyError"]
    ELSE LET deg(x) == IF useWeight THEN WeightAt(g, x) ELSE Cardinality(EdgesAt(g, x))
         IN [g |-> Without(g, {x \in Ids(g) : ~Within(deg(x), lo, hi)}), out |-> "ok"]
DropByCount(g, lo, hi, lenient) ==
    IF ~lenient /\ \E n \in g.nodes : n.c = None THEN [g |-> g, out |-> "KeyError"]
    ELSE [g |-> Without(g, {n.id : n \in {m \in g.nodes : m.c # None /\ ~Within(m.c, lo, hi)}}), out |-> "ok"]

(*------------------------------- degrees ----------------------------------*)
\* degree tables add an edge to both its ends ("bi"), to its end ("in") or start ("out")
EdgeVal(e, weighted) == IF ~weighted \/ e.w = None THEN 1 ELSE e.w
DegTable(g, x, weighted, way) ==
    LET sum(E) == SumSet(E, [e \in E |-> EdgeVal(e, weighted)])
    IN (IF way \in {"bi", "out"} THEN sum({e \in g.edges : e.a = x}) ELSE 0) + (IF way \in {"bi", "in"} THEN sum({e \in g.edges : e.b = x}) ELSE 0)

(*------------------------------ statistics --------------------------------*)
NNodes(g) == Cardinality(g.nodes)
NEdges(g) == Cardinality(g.edges)
Isolates(g) == Cardinality({n \in g.nodes : \A e \in g.edges : ~Touches(e, n.id)})
Loops(g) == Cardinality({e \in g.edges : Loop(e)})
\* fractions as <<numerator, denominator>>
Density(g) == LET n == NNodes(g) IN IF NEdges(g) = 0 \/ n <= 1 THEN <<0, 1>> ELSE <<(IF g.directed THEN 1 ELSE 2) * NEdges(g), n * (n - 1)>>
\* undirected simple graphs: three times the triangles over the connected triples
Nbrs(g, x) == {y \in Ids(g) \ {x} : \E e \in g.edges : {e.a, e.b} = {x, y}}
Triples(g) == LET I == Ids(g) IN SumSet(I, [x \in I |-> LET d == Cardinality(Nbrs(g, x)) IN (d * (d - 1)) \div 2])
Triangles(g) == Cardinality({T \in SUBSET Ids(g) : Cardinality(T) = 3 /\ \A x, y \in T : x # y => y \in Nbrs(g, x)})
Transitivity(g) == IF Triples(g) = 0 THEN <<0, 1>> ELSE <<3 * Triangles(g), Triples(g)>>
SameFraction(p, q) == p[1] * q[2] = q[1] * p[2]

(*------------------------------- merging ----------------------------------*)
Plus(x, y) == IF x = None THEN y ELSE IF y = None THEN x ELSE x + y
Keyed(e) == <<e.a, e.b, e.key>>
HasNode(g, x) == \E n \in g.nodes : n.id = x
EdgeLike(g, k) == {e \in g.edges : Keyed(e) = k}
\* shared nodes and edges carry the sum, and keep the attributes of the first graph (t);
\* those only one graph has keep all they had
MergeNode(t, s, x) == IF ~HasNode(t, x) THEN Node(s, x)
                      ELSE IF ~HasNode(s, x) THEN Node(t, x)
                      ELSE [Node(t, x) EXCEPT !.c = Plus(@, Node(s, x).c)]
MergeEdge(t, s, k) == IF EdgeLike(t, k) = {} THEN CHOOSE e \in EdgeLike(s, k) : TRUE
                      ELSE LET e == CHOOSE e \in EdgeLike(t, k) : TRUE
                           IN IF EdgeLike(s, k) = {} THEN e ELSE [e EXCEPT !.w = Plus(@, (CHOOSE f \in EdgeLike(s, k) : TRUE).w)]
Merge(t, s) == [t EXCEPT !.nodes = {MergeNode(t, s, x) : x \in Ids(t) \cup Ids(s)},
                         !.edges = {MergeEdge(t, s, k) : k \in {Keyed(e) : e \in t.edges \cup s.edges}}]
\* without increments: what the first graph has stays as it is
MergeKeep(t, s, incN, incE) ==
    LET m == Merge(t, s)
    IN [m EXCEPT !.nodes = {IF ~incN /\ HasNode(t, n.id) THEN [n EXCEPT !.c = Node(t, n.id).c] ELSE n : n \in @},
                 !.edges = {IF ~incE /\ EdgeLike(t, Keyed(e)) # {} THEN [e EXCEPT !.w = (CHOOSE f \in EdgeLike(t, Keyed(e)) : TRUE).w] ELSE e : e \in @}]
\* the same nodes, edges and sums, whatever the other attributes
Sums(g) == [nodes |-> {<<n.id, n.c>> : n \in g.nodes}, edges |-> {<<Keyed(e), e.w>> : e \in g.edges}]
=============================================================================
