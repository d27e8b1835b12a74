---------------------------- MODULE Trace_GraphIO ----------------------------
EXTENDS MKTrace, MKGraphIO
(* Each event holds a graph as text and what was written and read. *)
MyInit(case) == 0
G(o) == [directed |-> o.directed, nodes |-> {[id |-> n.id, at |-> SeqRange(n.at)] : n \in SeqRange(o.nodes)},
         edges |-> [i \in 1..Len(o.edges) |-> [a |-> o.edges[i].a, b |-> o.edges[i].b, at |-> SeqRange(o.edges[i].at)]]]
EdgeClauses(g, info, text) ==
    LET t == Parse(text)
        names == EdgeNames(g, info)
        want == FilledGraph(g, info, g.directed).edges
    IN IF t = <<>> THEN {<<"edge list: has a header", FALSE>>} ELSE
       {<<"edge list: columns", NoDups(Header(t)) /\ SeqRange(Header(t)) = {"Source", "Target"} \cup names>>,
        <<"edge list: rows are complete", Regular(t)>>,
        <<"edge list: exactly the edges", Regular(t) => SameEdges(ReadEdges(t), want, g.directed)>>}
NodeClauses(g, text) ==
    LET t == Parse(text)
        want == FilledGraph(g, FALSE, g.directed).nodes
        r == Rows(t)
    IN IF t = <<>> THEN {<<"node list: has a header", FALSE>>} ELSE
       {<<"node list: columns", NoDups(Header(t)) /\ SeqRange(Header(t)) = {"ID"} \cup NodeNames(g)>>,
        <<"node list: rows are complete", Regular(t)>>,
        <<"node list: exactly the nodes", (Regular(t) /\ Len(r) = Cardinality(want)) /\ {[id |-> Cell(r[i], "ID"), at |-> Less(r[i], {"ID"})] : i \in 1..Len(r)} = want>>}
Mixed(g) == Cardinality({x.at : x \in g.nodes}) > 1
Uniform(S) == \A x, y \in S : {p[1] : p \in x.at} = {p[1] : p \in y.at}
\* reading an undirected graph as directed may point its edges either way; a directed one read
\* as undirected is read when no two of its edges join the same nodes (the driver's choice)
Read(e) ==
    LET g == G(e.g)
        r == G(e.read)
        want == FilledGraph(g, e.info, e.asDirected)
        wn == IF e.withNodes THEN want.nodes ELSE {[id |-> x, at |-> {}] : x \in UNION {{f.a, f.b} : f \in SeqRange(g.edges)}}
    IN {<<"read back: nodes", {n.id : n \in r.nodes} = {n.id : n \in wn} /\ Len(e.read.nodes) = Cardinality(wn)>>,
        <<"read back: node attributes", r.nodes = wn>>,
        <<"read back: edges and attributes", SameEdges(r.edges, want.edges, g.directed /\ e.asDirected)>>,
        <<"read back: direction", r.directed = e.asDirected>>}
Write(e) ==
    LET g == G(e.g)
        same == Uniform(g.nodes) /\ (e.info => Uniform(SeqRange(g.edges)))
        ok == ~e.allSame \/ same
    IN IF ~ok THEN Failing({<<"differing attributes are refused", e.out \in {"ValueError", "KeyError"}>>})
       ELSE Failing({<<"writing: outcome", e.out = "ok">>,
                     <<"writing leaves the graph", G(e.after) = g>>}
                    \cup (IF e.out # "ok" THEN {} ELSE
                          {<<"writing: the files", SeqRange(e.files) = {EdgeFile(e.name, e.typing, g.directed, e.suffix), NodeFile(e.name, e.typing, g.directed, e.suffix)}>>}
                          \cup EdgeClauses(g, e.info, e.edgeText) \cup NodeClauses(g, e.nodeText) \cup Read(e)))
Keep(e) ==
    LET g == G(e.g)
        E == EdgeFile(e.name, e.typing, g.directed, e.suffix)
        N == NodeFile(e.name, e.typing, g.directed, e.suffix)
        there == SeqRange(e.existing)
    IN Failing({<<"overwriting off: outcome", e.out = IF {E, N} \cap there # {} THEN "OSError" ELSE "ok">>,
                <<"overwriting off: existing files", \A i \in 1..Len(e.contents) : e.contents[i] = "old">>,
                <<"overwriting off: nothing else is written", SeqRange(e.files) = there \cup (IF {E, N} \cap there # {} THEN {} ELSE {E, N})>>})
Tnet(e) ==
    LET g == [nodes |-> SeqRange(e.g.nodes), edges |-> e.g.edges]
        idx == {n.index : n \in g.nodes}
    IN IF ~TnetOk(g, e.source) THEN Failing({<<"tnet: refused", e.out = "RCValueError">>})
       ELSE Failing({<<"tnet: outcome", e.out = "ok">>,
                     <<"tnet: nodes are numbered", e.out = "ok" => idx = 1..Cardinality(g.nodes) /\ Cardinality({n.id : n \in g.nodes}) = Cardinality(idx)>>,
                     <<"tnet: exactly the edges", e.out = "ok" => LET t == Split(e.text, "\n") IN
                          /\ t[Len(t)] = ""
                          /\ \E src \in (IF e.source = "" THEN Modes(g) ELSE {e.source}) :
                                SameBag(SubSeq(t, 1, Len(t) - 1), [i \in 1..Len(g.edges) |-> TnetLine(g, g.edges[i], src, e.weighted, e.timed)])>>})
\* a graph of many edges: the files by lines (no cell holds a line break), everything compared as sets
LineRows(lines) == LET t == [i \in 1..Len(lines) |-> Parse(lines[i])] IN [i \in 1..Len(lines) |-> IF Len(t[i]) = 1 THEN t[i][1] ELSE <<>>]
NormSet(q, directed) == {<<Ends(q[i], directed), q[i].at>> : i \in 1..Len(q)}
Big(e) ==
    LET g == G(e.g)
        r == G(e.read)
        et == TLCEval(LineRows(e.edgeLines))
        nt == TLCEval(LineRows(e.nodeLines))
        want == TLCEval(FilledGraph(g, TRUE, g.directed))
        we == TLCEval(NormSet(want.edges, g.directed))
        er == IF Regular(et) THEN TLCEval(ReadEdges(et)) ELSE <<>>
    IN IF et = <<>> \/ nt = <<>> THEN Failing({<<"large graph: has headers", FALSE>>}) ELSE
       Failing({<<"large graph: columns", SeqRange(Header(et)) = {"Source", "Target"} \cup EdgeNames(g, TRUE) /\ SeqRange(Header(nt)) = {"ID"} \cup NodeNames(g)>>,
                <<"large graph: rows are complete", Regular(et) /\ Regular(nt)>>,
                <<"large graph: exactly the edges", Len(er) = Len(g.edges) /\ NormSet(er, g.directed) = we>>,
                <<"large graph: exactly the nodes", Regular(nt) => LET nr == TLCEval(Rows(nt)) IN Len(nr) = Cardinality(g.nodes) /\ {[id |-> Cell(nr[i], "ID"), at |-> Less(nr[i], {"ID"})] : i \in 1..Len(nr)} = want.nodes>>,
                <<"large graph: reads back", r.nodes = want.nodes /\ Len(r.edges) = Len(g.edges) /\ NormSet(r.edges, g.directed) = we>>})
MyStep(s, e) == [st |-> s, bad |-> CASE e.op = "write" -> Write(e)
                                     [] e.op = "keep" -> Keep(e)
                                     [] e.op = "big" -> Big(e)
                                     [] e.op = "edges" -> Failing(EdgeClauses(G(e.g), e.info, e.edgeText))
                                     [] e.op = "nodes" -> Failing(NodeClauses(G(e.g), e.nodeText))
                                     [] e.op = "tnet" -> Tnet(e)]
=============================================================================
