---------------------------- MODULE Trace_Diffusion ----------------------------
(* case: pool, a sequence of [src, f]; sources and targets, sequences of       *)
(* positions in the pool.                                                       *)
EXTENDS MKTrace, MKDecode
D == INSTANCE MKDiffusion
CT == INSTANCE MKCitation

CiteId(s) == CT!ParseWOS(s).id
\* values as text with their kind
One(x) == CASE x.k = "s" -> IF x.v = "" THEN {} ELSE {"s:" \o x.v}
            [] x.k = "i" -> IF x.v = 0 THEN {} ELSE {"i:" \o ToString(x.v)}
            [] x.k = "t" -> {"t:" \o CiteId(x.v)}
            [] x.k = "l" -> {"s:" \o x.v[i] : i \in 1..Len(x.v)}
            [] x.k = "c" -> {"t:" \o CiteId(x.v[i]) : i \in 1..Len(x.v)}
            [] OTHER -> {}
Base(p) == TLCEval([src |-> p.src, f |-> p.f, id |-> IdText(p.src, p.f),
            first |-> {CiteId(CiteText(p.src, p.f))},
            all |-> LET c == CiteTexts(p.src, p.f) IN {CiteId(c[i]) : i \in 1..Len(c)},
            cites |-> IF Has(p.f, "CR") THEN [i \in 1..Len(Raw(p.f, "CR")) |-> CiteId(Raw(p.f, "CR")[i])] ELSE <<>>])
MyInit(c) == [pool |-> [i \in 1..Len(c.pool) |-> Base(c.pool[i])], s |-> c.sources, t |-> c.targets]

ValsOf(b, tag) == IF tag = "raw" THEN {"r:" \o b.id} ELSE One(View(b.src, b.f, tag))
\* the extra values of a record in order, mapped
SeqOf(b, tag) == LET x == View(b.src, b.f, tag)
                 IN CASE x.k = "l" -> [i \in 1..Len(x.v) |-> "s:" \o x.v[i]]
                      [] x.k = "c" -> [i \in 1..Len(x.v) |-> "t:" \o CiteId(x.v[i])]
                      [] x.k \in {"s", "i", "t"} -> <<IF x.k = "s" THEN "s:" \o x.v ELSE IF x.k = "i" THEN "i:" \o ToString(x.v) ELSE "t:" \o CiteId(x.v)>>
                      [] OTHER -> <<>>
Map(how, v) == CASE how = "const" -> "s:all" [] how = "str" -> "s:" \o SubSeq(v, 3, Len(v)) [] OTHER -> v
Rec(b, e, allAuthors) == [id |-> b.id, vals |-> ValsOf(b, e.tag), own |-> IF allAuthors THEN b.all ELSE b.first, cites |-> b.cites,
                          extra |-> IF e.extra = "" THEN <<>> ELSE LET q == SeqOf(b, e.extra) IN [i \in 1..Len(q) |-> Map(e.map, q[i])]]
\* an observation of the specification: the collections as the call sees them
See(q, ix, e, all) == [i \in 1..Len(ix) |-> Rec(q.pool[ix[i]], e, all)]

\* what a dictionary of counts holds: a set of [key, n, by] (by: set of <<value, n>>)
Entries(S, Ts, e) == {[key |-> v, n |-> D!CountOf(S, Ts, v), by |-> {<<x, D!CountBy(S, Ts, v, x)>> : x \in D!ExtrasFor(S, Ts, v)}] : v \in D!ValuesIn(S)}
AsSet(x) == {x[i] : i \in 1..Len(x)}
ByOf(x) == {<<x[i].x, x[i].n>> : i \in 1..Len(x)}
Got(x) == {[key |-> y.key, n |-> y.n, by |-> ByOf(y.by)] : y \in AsSet(x)}

\* the table: one row for every entry, or for every entry and value
Rows(E, hasExtra) == IF ~hasExtra THEN {[key |-> y.key, extra |-> "", n |-> y.n] : y \in E}
                     ELSE UNION {{[key |-> y.key, extra |-> "s:TargetCount", n |-> y.n]} \cup {[key |-> y.key, extra |-> p[1], n |-> p[2]] : p \in y.by} : y \in E}
Local(E, key, extra) == LET y == CHOOSE y \in E : y.key = key
                        IN IF extra \in {"", "s:TargetCount"} THEN y.n
                           ELSE IF \E p \in y.by : p[1] = extra THEN (CHOOSE p \in y.by : p[1] = extra)[2] ELSE 0
As(x) == IF x.k = "d" THEN [k |-> "d", v |-> {x.v[i] : i \in 1..Len(x.v)}] ELSE x
BaseOf(q, key) == q.pool[CHOOSE i \in 1..Len(q.pool) : "r:" \o q.pool[i].id = key]
NAuth(b) == LET a == Plain(b.src, b.f, "authorsShort") IN IF There(a) THEN Len(a.v) ELSE 0

Count(q, e) ==
  LET S == TLCEval(See(q, q.s, e, e.all)) Ts == TLCEval(See(q, q.t, e, e.all))
      E == TLCEval(Entries(S, Ts, e)) F == IF e.local THEN TLCEval(Entries(S, S, e)) ELSE {}
  IN IF e.op = "count"
     THEN Failing({<<"counts", Got(e.got) = E>>, <<"one entry for every value", Len(e.got) = Cardinality(E)>>,
                   <<"local counts", e.local => Got(e.loc) = F /\ Len(e.loc) = Cardinality(F)>>})
     ELSE LET W == Rows(E, e.extra # "") IN
          Failing({<<"columns of one length", e.even>>,
                   <<"columns", AsSet(e.cols) = {"TargetCount"} \cup (IF e.local THEN {"SourceCount"} ELSE {}) \cup (IF e.extra # "" THEN {e.extra} ELSE {})
                        \cup (IF e.tag # "raw" THEN {e.tag} ELSE (IF e.nauth THEN {"numAuthors"} ELSE {})
                               \cup UNION {{q.pool[i].f[j].t : j \in 1..Len(q.pool[i].f)} : i \in AsSet(q.s)})>>,
                   <<"rows", {[key |-> y.key, extra |-> y.extra, n |-> y.n] : y \in AsSet(e.rows)} = W /\ Len(e.rows) = Cardinality(W)>>,
                   <<"local counts of rows", e.local => \A y \in AsSet(e.rows) : (\E z \in F : z.key = y.key) => y.loc = Local(F, y.key, y.extra)>>,
                   <<"author counts of rows", (e.tag = "raw" /\ e.nauth) => \A y \in AsSet(e.rows) : y.nauth = NAuth(BaseOf(q, y.key))>>,
                   <<"cells of rows", e.tag = "raw" => \A y \in AsSet(e.rows) : LET b == BaseOf(q, y.key) IN
                        \A c \in AsSet(y.cells) : Same(As(c.v), View(b.src, b.f, c.t))>>})

\* counts put on the nodes of a network; a node is the value, how it is written, or the identity of a citation
OfNode(E, n) == LET M == {y \in E : y.key = n \/ (SubSeq(n, 1, 2) = "s:" /\ y.key \in {"t:" \o SubSeq(n, 3, Len(n)), "i:" \o SubSeq(n, 3, Len(n))})}
                IN IF M = {} THEN [n |-> 0, by |-> {}] ELSE CHOOSE y \in M : TRUE
Add(q, e) ==
  LET S == TLCEval(See(q, q.s, e, TRUE)) Ts == TLCEval(See(q, q.t, e, TRUE)) E == TLCEval(Entries(S, Ts, e))
  IN Failing({<<"count of a node", \A y \in AsSet(e.nodes) : y.n = OfNode(E, y.node).n>>,
              <<"counts of a node by value", \A y \in AsSet(e.nodes) : ByOf(y.by) = OfNode(E, y.node).by \cup
                    {<<k, 0>> : k \in {x \in AsSet(e.keys) : \A p \in OfNode(E, y.node).by : p[1] # x}}>>,
              <<"the network is otherwise unchanged", e.kept>>})

\* the graph of values
Graph(q, e) ==
  LET S == TLCEval(See(q, q.s, e, FALSE))
      T0 == See(q, q.t, [e EXCEPT !.tag = e.ttag], FALSE)
      Ts == TLCEval(IF e.extra = "" THEN T0 ELSE SelectSeq(T0, LAMBDA t : Len(t.extra) > 0))   \* targets without the label take no part
      SV == D!ValuesIn(S) TV == D!ValuesIn(Ts)
      XS == UNION {AsSet(Ts[j].extra) : j \in 1..Len(Ts)}
      E == IF e.extra = "" THEN {[a |-> v, b |-> w, x |-> "", w |-> IF e.weighted THEN D!Weight(S, Ts, v, w) ELSE 1] : <<v, w>> \in {p \in SV \X TV : D!Weight(S, Ts, p[1], p[2]) > 0}}
           ELSE {[a |-> p[1], b |-> p[2], x |-> p[3], w |-> IF e.weighted THEN D!WeightBy(S, Ts, p[1], p[2], p[3]) ELSE 1] :
                   p \in {p \in SV \X TV \X XS : D!WeightBy(S, Ts, p[1], p[2], p[3]) > 0}}
  IN Failing({<<"nodes", AsSet(e.nodes) = {[v |-> v, s |-> v \in SV, t |-> v \in TV] : v \in SV \cup TV}>>,
              <<"edges", {[a |-> y.a, b |-> y.b, x |-> y.x] : y \in AsSet(e.edges)} = {[a |-> y.a, b |-> y.b, x |-> y.x] : y \in E}
                          /\ Len(e.edges) = Cardinality(E)>>,
              <<"weights", AsSet(e.edges) = E>>,
              <<"kind of graph", e.multi = (e.extra # "")>>})
MyStep(q, e) == [st |-> q, bad |->
  CASE e.op \in {"count", "table"} -> Count(q, e)
    [] e.op = "add" -> Add(q, e)
    [] e.op = "graph" -> Graph(q, e)
    [] e.op = "refused" -> Failing({<<"what is not a collection, or no field, is refused", e.out = "exc:RuntimeError">>})
    [] e.op = "after" -> Failing({<<"the collections are unchanged", e.same>>})]
===============================================================================
