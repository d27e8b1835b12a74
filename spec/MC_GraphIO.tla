----------------------------- MODULE MC_GraphIO -----------------------------
(* Writing the tables of a graph and reading them gives the graph, with the    *)
(* attributes something has and others lack filled in empty.                   *)
EXTENDS MKGraphIO, SequencesExt
VARIABLES g, ph
Names == {"a", "b,\"c"}
Ats == {{}, {<<"w", "1">>}, {<<"i", "x, y">>, <<"w", "2">>}}
Pairs == <<<<"a", "a">>, <<"a", "b,\"c">>, <<"b,\"c", "a">>>>
Init == g = [directed |-> TRUE, nodes |-> {}, edges |-> <<>>] /\ ph = 0
AddNode == ph = 0 /\ \E x \in Names \ {n.id : n \in g.nodes} : \E at \in Ats : g' = [g EXCEPT !.nodes = @ \cup {[id |-> x, at |-> at]}] /\ UNCHANGED ph
AddEdge == \E k \in (ph + 1)..3 : /\ {Pairs[k][1], Pairs[k][2]} \subseteq {n.id : n \in g.nodes}
                                  /\ \E at \in Ats : g' = [g EXCEPT !.edges = Append(@, [a |-> Pairs[k][1], b |-> Pairs[k][2], at |-> at])]
                                  /\ ph' = k
Next == AddNode \/ AddEdge
Spec == Init /\ [][Next]_<<g, ph>>
RoundTrip == \A info \in BOOLEAN : \A all \in BOOLEAN :
    LET eh == <<"Source", "Target">> \o SetToSeq(EdgeNames(g, info))
        nh == SetToSeq(NodeNames(g)) \o <<"ID">>
        et == Parse(Render(EdgeTable(g, eh), all, "\r\n"))
        nt == Parse(Render(NodeTable(SetToSeq(g.nodes), nh), all, "\n"))
        want == FilledGraph(g, info, TRUE)
    IN ReadNodes(et, nt) = want.nodes /\ ReadEdges(et) = want.edges /\ Regular(et) /\ Regular(nt)
=============================================================================
