------------------------------ MODULE Trace_Cli ------------------------------
EXTENDS MKTrace, MKCli, MKGraph
(* A case holds the world (w), the files there were (start), the records of    *)
(* each path (holds), what the collection of the files read looks like as      *)
(* written (table, cites), the network the library builds of it (base), and    *)
(* whether the two filters recorded as findings are held to their wording      *)
(* (strict).  The state is [q |-> session, gs |-> the graphs the network may be]. *)
At(x) == SeqRange(x)
G(o) == [directed |-> o.directed, multi |-> o.multi,
         nodes |-> {[id |-> o.nodes[i].id, c |-> o.nodes[i].c, at |-> {}] : i \in 1..Len(o.nodes)},
         edges |-> {[a |-> o.edges[i].a, b |-> o.edges[i].b, key |-> "", w |-> o.edges[i].w, at |-> {}] : i \in 1..Len(o.edges)}]
World(c) == [args |-> c.w.args, name |-> c.w.name, files |-> SeqRange(c.w.files), tags |-> SeqRange(c.w.tags), unknown |-> c.w.unknown]
MyInit(case) == [q |-> Blank, gs |-> {}, w |-> World(case), c |-> case, said |-> FALSE]

\* what a filter may leave, as results of the graph helpers
Filter(g, step, strict) == LET k == step[1]  b == step[2] IN
    CASE k = "1" -> {DropByDegree(g, 1, None, TRUE, TRUE)}
      [] k = "2" -> {DropEdges(g, None, None, FALSE, TRUE)}
      [] k = "3" -> {DropEdges(g, b, None, FALSE, FALSE)}
      [] k = "4" -> {DropEdges(g, None, b, FALSE, FALSE)} \cup (IF strict THEN {} ELSE {DropEdges(g, b, None, FALSE, FALSE)})
      [] k = "5" -> {DropByDegree(g, b, None, TRUE, TRUE)}
      [] k = "6" -> {DropByDegree(g, None, b, TRUE, TRUE)} \cup (IF strict THEN {} ELSE {DropByDegree(g, b, None, TRUE, TRUE)})
Going(s, p) == \* the state after the session went from s.q to p
    LET new == p.at = "filter" /\ s.q.at \in {"net", "tag", "more"}
        step == Len(p.steps) > Len(s.q.steps)
        rs == IF step THEN UNION {Filter(g, p.steps[Len(p.steps)], s.c.strict) : g \in s.gs} ELSE {}
        fail == step /\ \E r \in rs : r.out # "ok"
    IN [s EXCEPT !.q = IF fail THEN End(p, "error") ELSE p, !.gs = IF new THEN {G(s.c.base)} ELSE IF step THEN {r.g : r \in rs} ELSE @]
Holds(s) == UNION {SeqRange(s.c.holds[i][2]) : i \in {j \in 1..Len(s.c.holds) : s.c.holds[j][1] \in SeqRange(s.q.files)}}
\* what is on the screen and on the disk when the next thing is asked
Seen(s, e) == Failing({<<"files on the disk", SeqRange(e.disk) = Names(s.q)>>,
      <<"records announced", (s.q.at = "what" /\ Len(e.count) = 1) => e.count[1] = Cardinality(Holds(s))>>,
      <<"network announced", (s.q.at = "filter" /\ Len(e.stats) = 4) => \E g \in s.gs : e.stats = <<NNodes(g), NEdges(g), Isolates(g), Loops(g)>>>>})
Nodes3(g) == {<<n.id, n.c>> : n \in g.nodes}
Ends(g, a, b) == IF g.directed THEN <<a, b>> ELSE <<{a, b}>>
Edges3(g) == {<<Ends(g, f.a, f.b), f.w>> : f \in g.edges}
File(s, e) ==
    LET f == {x \in s.q.disk : x.n = e.n}
        k == IF f = {} THEN "" ELSE (CHOOSE x \in f : TRUE).k
        once == Len(e.rows) = Cardinality(SeqRange(e.rows))
    IN Failing({<<"file: " \o k, CASE k = "old" -> e.k = "old"
         [] k = "records" -> e.k = "records" /\ SeqRange(e.rows) = Holds(s) /\ once
         [] k = "table" -> e.k = "table" /\ SeqRange(e.rows) = SeqRange(s.c.table) /\ once
         [] k = "cites" -> e.k = "cites" /\ SeqRange(e.rows) = {x[1] : x \in {y \in SeqRange(s.c.cites) : ~s.q.only \/ y[2]}} /\ once
         [] k \in {"edges", "nodes", "graphml"} -> e.k = k
             /\ \E g \in s.gs : /\ k # "edges" => ({<<n.id, n.c>> : n \in SeqRange(e.nodes)} = Nodes3(g) /\ Len(e.nodes) = Cardinality(g.nodes))
                                /\ k # "nodes" => ({<<Ends(g, x.a, x.b), x.w>> : x \in SeqRange(e.edges)} = Edges3(g) /\ Len(e.edges) = Cardinality(g.edges))
         [] OTHER -> FALSE>>})
MyStep(s, e) ==
    CASE e.op = "begin" -> LET t == [s EXCEPT !.q = Begin(s.w, {[n |-> x, k |-> "old"] : x \in SeqRange(s.c.start)})] IN [st |-> t, bad |-> Seen(t, e)]
      [] e.op = "say" -> IF s.q.at = "end" THEN [st |-> s, bad |-> {"asked after the end"}]
                         ELSE LET t == Going(s, Answer(s.q, e.a, s.w)) IN [st |-> t, bad |-> Seen(t, e)]
      [] e.op = "console" -> [st |-> s, bad |-> Failing({<<"console: the collection", SeqRange(e.ids) = Holds(s)>>, <<"console: the network", e.net = (s.gs # {})>>,
                                                         <<"console: when asked for", e.a = "i" /\ s.q.at \in {"what", "net", "filter", "out"}>>})]
      [] e.op = "end" -> [st |-> s, bad |-> Failing({<<"journals added", e.added = Cardinality({i \in 1..Len(s.q.js) : s.q.js[i]})>>, <<"journals skipped", e.skipped = Cardinality({i \in 1..Len(s.q.js) : ~s.q.js[i]})>>,
                                                     <<"how it ended", e.result = s.q.result /\ s.q.at = "end">>, <<"answers left", e.left = 0>>, <<"asks for more", ~e.more>>,
                                                     <<"name of the collection", (e.name # "~" /\ s.w.name # "") => e.name = s.w.name>>})]
      [] e.op = "file" -> [st |-> s, bad |-> File(s, e)]
=============================================================================
