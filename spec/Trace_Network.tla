----------------------------- MODULE Trace_Network -----------------------------
EXTENDS MKTrace, MKNetwork
(* case.recs: abstract records; case.jdict: journal table.  Every event holds one *)
(* network: op, the options o, and the graph g as nodes [id, count, attributes]   *)
(* and edges [a, b, w, yd]; "~" / -1 stands for an absent attribute.              *)
RecOf(r) == [id |-> r.id, own |-> ParseWOS(r.own), cites |-> [j \in 1..Len(r.cites) |-> ParseWOS(r.cites[j])],
             full |-> r.full, short |-> r.short, vals |-> r.vals, authors |-> r.authors]
MyInit(case) == [recs |-> [i \in 1..Len(case.recs) |-> RecOf(case.recs[i])], jd |-> {<<case.jdict[i][1], case.jdict[i][2]>> : i \in 1..Len(case.jdict)}]

OptOf(o) == [type |-> o.type, dropAnon |-> o.dropAnon, nonJ |-> o.nonJ, coreOnly |-> o.coreOnly, kw |-> SeqRange(o.kw)]
NodeSet(g) == {g.nodes[i].id : i \in 1..Len(g.nodes)}
Absent == "~"

\* edge keys and weights of a recorded graph
UKey(e) == {e.a, e.b}
Keys(g, directed) == {IF directed THEN <<g.edges[i].a, g.edges[i].b>> ELSE <<UKey(g.edges[i])>> : i \in 1..Len(g.edges)}

\* the information a node of citation c carries
\* (of a list the first entry is used)
CoreInfo(r, tags) == LET q == SelectSeq(tags, LAMBDA t : r.vals[t] # <<>>)
                     IN Join([i \in 1..Len(q) |-> Replace(r.vals[q[i]][1], ",", "")], ", ")
\* TRUE when node n is what some citation c in occ (those that became this node) gives
NodeInfoOk(n, occ, o, recs, jd) ==
    LET r == {recs[i] : i \in {i \in 1..Len(recs) : \E c \in occ : recs[i].own.id = c.id}}
        isCore == o.type = "full" /\ r # {}
        detail == o.type = "full" /\ o.core # <<>>
        infos == CASE ~o.nodeInfo -> {Absent}
                   [] o.nodeInfo /\ detail /\ isCore -> IF o.coreAttr THEN {Absent} ELSE {CoreInfo(x, o.core) : x \in r}
                   [] o.nodeInfo /\ o.type = "full" /\ ~(detail /\ isCore) -> {AllButDOI(c) : c \in occ}
                   [] o.nodeInfo /\ o.type = "journal" -> {FullName(c, jd) : c \in occ}
                   [] o.nodeInfo /\ o.type = "original" -> {c.original : c \in occ}
                   [] o.nodeInfo /\ o.type = "author" -> {c.author : c \in occ}
                   [] o.nodeInfo /\ o.type = "year" -> {YearText(c.year) : c \in occ}
    IN [info |-> n.info \in infos,
        core |-> IF o.nodeInfo /\ detail
                 THEN /\ n.incore = (IF isCore THEN "True" ELSE "False")
                      /\ n.mkid \in (IF isCore THEN {x.id : x \in r} ELSE {"None"})
                      /\ n.cites \in (IF ~o.addCR THEN {Absent} ELSE IF isCore
                                      THEN {Join([i \in 1..Len(x.cites) |-> x.cites[i].original], "|") : x \in r} ELSE {""})
                 ELSE n.incore = Absent /\ n.mkid = Absent /\ n.cites = Absent,
        full |-> n.full \in (IF o.fullInfo THEN {c.original : c \in occ} ELSE {Absent}),
        attrs |-> IF o.nodeInfo /\ detail /\ isCore /\ o.coreAttr
                  THEN \E x \in r : /\ Len(n.attrs) = Len(o.core)
                                    /\ \A i \in 1..Len(o.core) : SameBag(Split(n.attrs[i], "|"), IF x.vals[o.core[i]] = <<>> THEN <<"None">> ELSE x.vals[o.core[i]])
                  ELSE n.attrs = <<>>]

InfoClauses(s, g, o, Occs) ==
    LET ok == [i \in 1..Len(g.nodes) |-> NodeInfoOk(g.nodes[i], {c \in Occs : NodeId(c, o.type) = g.nodes[i].id}, o, s.recs, s.jd)]
    IN {<<"node information", \A i \in 1..Len(ok) : ok[i].info>>, <<"core marking of nodes", \A i \in 1..Len(ok) : ok[i].core>>,
        <<"full citation of nodes", \A i \in 1..Len(ok) : ok[i].full>>, <<"core attributes of nodes", \A i \in 1..Len(ok) : ok[i].attrs>>}
Simple(g) == {<<"each node once", Len(g.nodes) = Cardinality(NodeSet(g))>>,
              <<"each edge once", Len(g.edges) = Cardinality(Keys(g, g.directed))>>,
              <<"no other attributes", \A i \in 1..Len(g.nodes) : g.nodes[i].extra = <<>> >>,
              <<"no other edge attributes", \A i \in 1..Len(g.edges) : g.edges[i].extra = <<>> >>}
CountOk(g, o, F(_)) == \A i \in 1..Len(g.nodes) : g.nodes[i].count = (IF o.count THEN F(g.nodes[i].id) ELSE 0 - 1)
WeightOk(g, o, F(_)) == \A i \in 1..Len(g.edges) : g.edges[i].w = (IF o.weighted THEN F(g.edges[i]) ELSE 0 - 1)

AllOccs(s, o, core) == UNION {SeqRange(Kept(s.recs[i], o, s.jd, core)) : i \in 1..Len(s.recs)}
CoCite(s, e) ==
    LET o == OptOf(e.o)  g == e.g
        core == Core(SeqRange(s.recs))
        K == [i \in 1..Len(s.recs) |-> KeptIds(s.recs[i], o, s.jd, core)]
    IN Failing({<<"undirected", ~g.directed>>,
                <<"node set", NodeSet(g) = CoNodes(K)>>,
                <<"node counts", CountOk(g, e.o, LAMBDA x : CoCount(K, x))>>,
                <<"edge set", Keys(g, FALSE) = {<<k>> : k \in CoEdges(K)}>>,
                <<"edge weights", WeightOk(g, e.o, LAMBDA x : CoWeight(K, x.a, x.b))>>}
               \cup Simple(g) \cup InfoClauses(s, g, e.o, AllOccs(s, o, core)))

YearOf(S, id) == LET c == CHOOSE c \in S : c.id = id IN c.year
CiteNet(s, e) ==
    LET o == OptOf(e.o)  g == e.g
        core == Core(SeqRange(s.recs))
        part == SelectSeq(s.recs, LAMBDA r : TakesPart(r, o, s.jd, core))
        H == [i \in 1..Len(part) |-> [h |-> NodeId(part[i].own, o.type), ids |-> KeptIds(part[i], o, s.jd, core)]]
        occs == UNION {SeqRange(Kept(part[i], o, s.jd, core)) \cup {part[i].own} : i \in 1..Len(part)}
        Diff(x) == LET A == {c \in occs : NodeId(c, o.type) = x.a}  B == {c \in occs : NodeId(c, o.type) = x.b}
                   IN {IF c.year = NoYear \/ d.year = NoYear THEN "n:" ELSE "i:" \o ToString(Abs(c.year - d.year)) : c \in A, d \in B}
    IN Failing({<<"directedness", g.directed = e.o.directed>>,
                <<"node set", NodeSet(g) = CiNodes(H)>>,
                <<"node counts", CountOk(g, e.o, LAMBDA x : CiCount(H, x))>>,
                <<"edge set", Keys(g, e.o.directed) = {ArcKey(a, e.o.directed, e.o.toCite) : a \in CiArcs(H)}>>,
                <<"edge weights", WeightOk(g, e.o, LAMBDA x : CiKeyWeight(H, IF e.o.directed THEN <<x.a, x.b>> ELSE <<UKey(x)>>, e.o.directed, e.o.toCite))>>,
                <<"year differences", \A i \in 1..Len(g.edges) :
                     IF e.o.weighted /\ o.type \in {"full", "original"} THEN g.edges[i].yd \in Diff(g.edges[i]) ELSE g.edges[i].yd = Absent>>}
               \cup Simple(g) \cup InfoClauses(s, g, e.o, occs))

\* bibliographic coupling: nodes named by the records' own identities
Bib(s, e) ==
    LET g == e.g  S == SeqRange(s.recs)
        RecAt(x) == CHOOSE r \in S : NodeId(r.own, "full") = x
        cnt == [r, t \in S |-> Shared(r, t)]
        occs == AllOccs(s, [type |-> "full", dropAnon |-> FALSE, nonJ |-> FALSE, coreOnly |-> FALSE, kw |-> {}], {}) \cup {r.own : r \in S}
    IN Failing({<<"undirected", ~g.directed>>,
                <<"node set", NodeSet(g) = {NodeId(r.own, "full") : r \in BibNodes(S)}>>,
                <<"edge set", Keys(g, FALSE) = {<<{NodeId(p[1].own, "full"), NodeId(p[2].own, "full")}>> : p \in {q \in S \X S : q[1] # q[2] /\ cnt[q[1], q[2]] > 0}}>>,
                <<"edge weights", NodeSet(g) \subseteq {NodeId(r.own, "full") : r \in S} =>
                       WeightOk(g, e.o, LAMBDA x : cnt[RecAt(x.a), RecAt(x.b)])>>,
                <<"node counts", CountOk(g, e.o, LAMBDA x : 0)>>}
               \cup Simple(g) \cup InfoClauses(s, g, e.o, occs))

\* co-authors; profile nodes carry the cited works with their multiplicities
CoAuth(s, e) ==
    LET g == e.g  o == e.o
        in == SelectSeq(s.recs, LAMBDA r : o.nonJ => IsJournal(r.own, s.jd))
        K == [i \in 1..Len(in) |-> [j \in 1..Len(Names(in[i], o.short)) |-> "s:" \o Names(in[i], o.short)[j]]]
        Of(x) == {i \in 1..Len(in) : x \in SeqRange(K[i])}
        CiteIds == [i \in 1..Len(in) |-> [j \in 1..Len(in[i].cites) |-> in[i].cites[j].id]]
        Prof(x, c) == SumSeq([i \in 1..Len(in) |-> Occ(K[i], x) * Occ(CiteIds[i], c)])
        ProfileOk(n) ==
            LET ids == [j \in 1..Len(n.pcites) |-> ParseWOS(n.pcites[j]).id]
            IN /\ Len(n.pcites) = Len(n.pcounts) /\ NoDups(ids)
               /\ SeqRange(ids) = UNION {SeqRange(CiteIds[i]) : i \in Of(n.id)}
               /\ \A j \in 1..Len(ids) : n.pcounts[j] = Prof(n.id, ids[j])
        DetailOk(n) == IF o.detail = <<>> THEN n.attrs = <<>>
                       ELSE \E i \in Of(n.id) : n.attrs = [t \in 1..Len(o.detail) |->
                              LET v == in[i].vals[o.detail[t]]
                              IN IF v = <<>> THEN "None" ELSE Join([q \in 1..Len(v) |-> Replace(v[q], ",", "")], ", ")]
    IN Failing({<<"undirected", ~g.directed>>,
                <<"node set", NodeSet(g) = CoNodes(K)>>,
                <<"node counts", CountOk(g, o, LAMBDA x : CoCount(K, x))>>,
                <<"edge set", Keys(g, FALSE) = {<<k>> : k \in CoEdges(K)}>>,
                <<"edge weights", WeightOk(g, o, LAMBDA x : CoWeight(K, x.a, x.b))>>,
                <<"citation profiles", NodeSet(g) = CoNodes(K) => \A i \in 1..Len(g.nodes) : IF o.profile THEN ProfileOk(g.nodes[i]) ELSE g.nodes[i].pcites = <<Absent>> >>,
                <<"detailed information", NodeSet(g) = CoNodes(K) => \A i \in 1..Len(g.nodes) : DetailOk(g.nodes[i])>>}
               \cup Simple(g))

\* the core expanded: x beside g, the network of the same options without it
Expanded(s, e) ==
    LET Pairs(h) == UNION {{<<h.edges[i].a, h.edges[i].b>>} \cup (IF h.directed THEN {} ELSE {<<h.edges[i].b, h.edges[i].a>>}) : i \in 1..Len(h.edges)}
        g == [n |-> NodeSet(e.g), e |-> Pairs(e.g)]
        x == [n |-> NodeSet(e.x), e |-> Pairs(e.x)]
        cs == [i \in 1..Len(s.recs) |-> [j \in 1..Len(s.recs[i].authors) |-> ParseWOS(s.recs[i].authors[j])]]
        V == {[j \in 1..Len(cs[i]) |-> NodeId(cs[i][j], e.o.type)] : i \in {i \in 1..Len(cs) : Len(cs[i]) > 1}}
        W == UNION {SeqRange(v) : v \in V}
        Bare(n) == [n EXCEPT !.id = ""]
        Node(h, y) == CHOOSE n \in SeqRange(h.nodes) : n.id = y
        Attr(h) == {Bare(n) : n \in SeqRange(h.nodes)}
    IN Failing({<<"expanded: direction", e.g.directed = e.x.directed>>,
                <<"expanded: nodes and edges stay", ExKept(g, x)>>,
                <<"expanded: a node for every author of a core record", ExEvery(g, x, V)>>,
                <<"expanded: no other nodes", ExOnly(g, x, V)>>,
                <<"expanded: edges between the nodes of a record", ExBetween(g, x, V)>>,
                <<"expanded: edges of the record", ExCopied(g, x, V)>>,
                <<"expanded: no other edges", ExTouches(g, x, V)>>,
                <<"expanded: attributes stay", \A n \in SeqRange(e.g.nodes) : n \in SeqRange(e.x.nodes)>>,
                <<"expanded: attributes are copied", \A n \in SeqRange(e.x.nodes) : n.id \in g.n \/
                      (Bare(n) \in Attr(e.g) /\ \E v \in V : n.id \in SeqRange(v) /\ \E y \in SeqRange(v) \ {n.id} : y \in x.n /\ Bare(Node(e.x, y)) = Bare(n))>>,
                <<"expanded: each node and edge once", Len(e.x.nodes) = Cardinality(x.n) /\ Len(e.x.edges) = Cardinality(Keys(e.x, e.x.directed))>>,
                <<"expanded: weights", \A y \in SeqRange(e.x.edges) : IF e.o.weighted THEN y.w >= 1 ELSE y.w = 0 - 1>>,
                <<"expanded: weights elsewhere stay", \A y \in SeqRange(e.g.edges) : (y.a \notin W /\ y.b \notin W) =>
                      \E z \in SeqRange(e.x.edges) : z.w = y.w /\ (<<z.a, z.b>> = <<y.a, y.b>> \/ (~e.g.directed /\ <<z.b, z.a>> = <<y.a, y.b>>))>>})

MyStep(s, e) == [st |-> s,
                 bad |-> CASE e.op = "cocite" -> CoCite(s, e) [] e.op = "cite" -> CiteNet(s, e) [] e.op = "expanded" -> Expanded(s, e)
                           [] e.op = "refused" -> Failing({<<"an unknown kind of node is refused", e.out = "RCValueError">>})
                           [] e.op = "bib" -> Bib(s, e) [] e.op = "coauth" -> CoAuth(s, e)]
=============================================================================
