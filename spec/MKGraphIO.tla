------------------------------ MODULE MKGraphIO ------------------------------
(***************************************************************************)
(* Graphs as files: an edge list and a node list (comma separated tables),  *)
(* reading them back, and the edge lists for tnet.  Everything is text here: *)
(* a graph is [directed, nodes, edges], nodes a set of [id, at], edges a     *)
(* sequence of [a, b, at]; at a set of <<name, text>>.                       *)
(***************************************************************************)
EXTENDS MKCsv

AttrNames(S) == UNION {{p[1] : p \in x.at} : x \in S}
\* the cell of attribute k: its text, empty when missing
Cell(at, k) == LET h == {p \in at : p[1] = k} IN IF h = {} THEN "" ELSE (CHOOSE p \in h : TRUE)[2]
Filled(at, names) == {<<k, Cell(at, k)>> : k \in names}
EdgeSet(g) == SeqRange(g.edges)
\* rows as sets of <<column, cell>>
EdgeRow(e, names) == {<<"Source", e.a>>, <<"Target", e.b>>} \cup Filled(e.at, names)
NodeRow(n, names) == {<<"ID", n.id>>} \cup Filled(n.at, names)
EdgeNames(g, info) == IF info THEN AttrNames(EdgeSet(g)) ELSE {}
NodeNames(g) == AttrNames(g.nodes)
\* written in any order of the columns h (a permutation of the names)
EdgeTable(g, h) == <<h>> \o [i \in 1..Len(g.edges) |-> [j \in 1..Len(h) |-> CASE h[j] = "Source" -> g.edges[i].a [] h[j] = "Target" -> g.edges[i].b [] OTHER -> Cell(g.edges[i].at, h[j])]]
NodeTable(ns, h) == <<h>> \o [i \in 1..Len(ns) |-> [j \in 1..Len(h) |-> IF h[j] = "ID" THEN ns[i].id ELSE Cell(ns[i].at, h[j])]]

\* a parsed table as rows of <<column, cell>>
Rows(t) == LET b == Body(t) IN [i \in 1..Len(b) |-> {<<Header(t)[j], b[i][j]>> : j \in 1..Len(Header(t))}]
Regular(t) == \A i \in 1..Len(t) : Len(t[i]) = Len(t[1])
Less(row, ks) == {p \in row : p[1] \notin ks}
\* reading the two tables back
ReadNodes(et, nt) ==
    LET nr == Rows(nt)
        er == Rows(et)
        listed == {[id |-> Cell(nr[i], "ID"), at |-> Less(nr[i], {"ID"})] : i \in 1..Len(nr)}
        ends == UNION {{Cell(er[i], "Source"), Cell(er[i], "Target")} : i \in 1..Len(er)}
    IN listed \cup {[id |-> x, at |-> {}] : x \in ends \ {n.id : n \in listed}}
ReadEdges(et) == LET er == Rows(et) IN [i \in 1..Len(er) |-> [a |-> Cell(er[i], "Source"), b |-> Cell(er[i], "Target"), at |-> Less(er[i], {"Source", "Target"})]]
\* what reading a written graph gives
FilledGraph(g, info, directed) ==
    [directed |-> directed, nodes |-> {[n EXCEPT !.at = Filled(@, NodeNames(g))] : n \in g.nodes},
     edges |-> [i \in 1..Len(g.edges) |-> [g.edges[i] EXCEPT !.at = Filled(@, EdgeNames(g, info))]]]

\* edges up to the direction of the undirected ones
Ends(e, directed) == IF directed THEN <<e.a, e.b>> ELSE <<{e.a, e.b}>>
Norm(q, directed) == [i \in 1..Len(q) |-> <<Ends(q[i], directed), q[i].at>>]
SameEdges(p, q, directed) == SameBag(Norm(p, directed), Norm(q, directed))

\* names of the files
KindText(typing, directed) == IF ~typing THEN "" ELSE IF directed THEN "_directed" ELSE "_undirected"
EdgeFile(name, typing, directed, suffix) == name \o "_edgeList" \o KindText(typing, directed) \o "." \o suffix
NodeFile(name, typing, directed, suffix) == name \o "_nodeAttributes" \o KindText(typing, directed) \o "." \o suffix

(*---------------------------------- tnet ----------------------------------*)
\* mode: the text of the mode attribute, "" when missing
Modes(g) == {n.mode : n \in g.nodes}
TnetOk(g, source) == LET M == Modes(g) \cup (IF source = "" THEN {} ELSE {source})
                     IN /\ "" \notin M /\ Cardinality(M) = 2
                        /\ \A i \in 1..Len(g.edges) : (CHOOSE n \in g.nodes : n.id = g.edges[i].a).mode # (CHOOSE n \in g.nodes : n.id = g.edges[i].b).mode
ModeOf(g, x) == (CHOOSE n \in g.nodes : n.id = x).mode
IndexOfNode(g, x) == (CHOOSE n \in g.nodes : n.id = x).index
\* the line of an edge when src is the mode of the first column
TnetLine(g, e, src, weighted, timed) ==
    LET x == IF ModeOf(g, e.a) = src THEN e.a ELSE e.b
        y == IF x = e.a THEN e.b ELSE e.a
    IN (IF timed THEN Q \o e.time \o Q \o " " ELSE "") \o ToString(IndexOfNode(g, x)) \o " " \o ToString(IndexOfNode(g, y)) \o (IF weighted THEN " " \o e.w ELSE "")
=============================================================================
