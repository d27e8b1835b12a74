------------------------------- MODULE MC_Graph -------------------------------
(* Every history of edits on every small graph.                               *)
EXTENDS MKGraph, Json, TLC
CONSTANTS N, Weights, Steps, Directed, MaxBound
VARIABLES g, g0, hist, pend
vars == <<g, g0, hist, pend>>
NodeIds == 1..N
Pairs == {p \in NodeIds \X NodeIds : Directed \/ p[1] <= p[2]}
Mk(c, E) == [directed |-> Directed, multi |-> FALSE, nodes |-> {[id |-> i, c |-> c[i], at |-> {}] : i \in NodeIds},
             edges |-> {[a |-> p[1], b |-> p[2], key |-> "", w |-> E[p], at |-> {}] : p \in {q \in Pairs : E[q] # 0}}]
Graphs == {Mk(c, E) : c \in [NodeIds -> {1, 2}], E \in [Pairs -> {0} \cup Weights]}
Bounds == {None} \cup 1..MaxBound
Init == g \in Graphs /\ g0 = g /\ hist = <<>> /\ pend = {}
Ops == [op : {"edges"}, lo : Bounds, hi : Bounds] \cup [op : {"loops"}, lo : {None}, hi : {None}]
       \cup [op : {"degree"}, lo : Bounds, hi : {None, MaxBound}] \cup [op : {"number"}, lo : {1, 2}, hi : {None, 2}] \cup [op : {"count"}, lo : Bounds, hi : {None, 1}]
Apply(h, o) == CASE o.op = "edges" -> DropEdges(h, o.lo, o.hi, FALSE, FALSE).g
                 [] o.op = "loops" -> DropEdges(h, None, None, FALSE, TRUE).g
                 [] o.op = "degree" -> DropByDegree(h, o.lo, o.hi, TRUE, TRUE).g
                 [] o.op = "number" -> DropByDegree(h, o.lo, o.hi, FALSE, TRUE).g
                 [] o.op = "count" -> DropByCount(h, o.lo, o.hi, FALSE).g
Next == Len(hist) < Steps /\ \E o \in Ops : g' = Apply(g, o) /\ hist' = Append(hist, o) /\ UNCHANGED <<g0, pend>>
Spec == Init /\ [][Next]_vars

WF == WellFormed(g)
Shrinks == g.nodes \subseteq g0.nodes /\ g.edges \subseteq g0.edges
\* an edge bound holds afterwards, and for edges and counts the order of the bounds does not matter
Kind(k) == hist # <<>> /\ \A i \in 1..Len(hist) : hist[i].op = k
Lows == {hist[i].lo : i \in 1..Len(hist)} \ {None}
Highs == {hist[i].hi : i \in 1..Len(hist)} \ {None}
Lo == IF Lows = {} THEN None ELSE MaxOf(Lows)
Hi == IF Highs = {} THEN None ELSE MinOf(Highs)
CombinedEdges == Kind("edges") => g = DropEdges(g0, Lo, Hi, FALSE, FALSE).g
CombinedCounts == Kind("count") => g = DropByCount(g0, Lo, Hi, FALSE).g
Holds == hist # <<>> => LET o == hist[Len(hist)] IN
    CASE o.op = "edges" -> \A e \in g.edges : Within(e.w, o.lo, o.hi)
      [] o.op = "loops" -> Loops(g) = 0
      [] o.op = "count" -> \A n \in g.nodes : Within(n.c, o.lo, o.hi)
      [] OTHER -> TRUE
\* an edge survives a node edit exactly when both its ends do
Ends == (hist # <<>> /\ hist[Len(hist)].op \in {"degree", "number", "count"} /\ Len(hist) = 1) =>
            g.edges = {e \in g0.edges : e.a \in Ids(g) /\ e.b \in Ids(g)}
\* handshake, and statistics of the edited graph
Handshake == LET I == Ids(g) IN SumSet(I, [x \in I |-> DegTable(g, x, FALSE, "bi")]) = 2 * NEdges(g)
Stats == Isolates(g) <= NNodes(g) /\ Loops(g) <= NEdges(g) /\ Transitivity(g)[1] <= Transitivity(g)[2]

\* emission: the graph grows pair by pair, then it is edited
GInit == \E c \in [NodeIds -> {1, 2}] : g = Mk(c, [p \in Pairs |-> 0]) /\ g0 = g /\ hist = <<>> /\ pend = Pairs
Grow == /\ pend # {}
        /\ LET p == CHOOSE p \in pend : TRUE
           IN /\ pend' = pend \ {p}
              /\ \E w \in {0} \cup Weights : g' = [g EXCEPT !.edges = @ \cup (IF w = 0 THEN {} ELSE {[a |-> p[1], b |-> p[2], key |-> "", w |-> w, at |-> {}]})]
        /\ g0' = g' /\ UNCHANGED hist
Fin == /\ Len(hist) = Steps
       /\ PrintT("T " \o ToJson([directed |-> g0.directed, nodes |-> g0.nodes, edges |-> g0.edges, hist |-> hist]))
       /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<g, g0, pend>>
SpecEmit == GInit /\ [][Grow \/ (pend = {} /\ (Next \/ Fin))]_vars
=============================================================================
