------------------------------ MODULE Trace_Tags ------------------------------
EXTENDS MKTrace, MKTags
(* case.recs: records as functions from field name to tagged values. *)
MyInit(case) == case.recs
NodeSet(g) == {g.nodes[i].id : i \in 1..Len(g.nodes)}
RowsOf(S, e) == [i \in 1..Len(S) |-> [j \in 1..Len(e.tags) |-> Row(S[i], e.tags[j], e.stems[j])]]
TextOf(v) == From(v, 3)

\* edges of the graph are [a, b, key, w]; key "~" when the graph is simple
Arcs(row, e) == IF e.op = "level" THEN SeqRange(LevelArcs(row)) ELSE SeqRange(ModeArcs(row))
KeyOf(a, e) == IF e.directed THEN a ELSE <<{a[1], a[2]}>>
EdgeVals(r, e) == IF e.edgeAttr = "" THEN <<"~">> ELSE r.EDGE
WeightOf(S, rows, e, x, y, k) ==
    SumSeq([i \in 1..Len(S) |-> Occ(EdgeVals(S[i], e), k) *
       (CASE e.op = "level" -> LevelCount(rows[i], x, y)
          [] e.op # "level" /\ e.directed -> ModeCount(rows[i], x, y)
          [] OTHER -> ModeCountU(rows[i], x, y))])
Net(S, e) ==
    LET g == e.g
        rows == RowsOf(S, e)
        want == UNION {{<<KeyOf(a, e), v>> : a \in Arcs(rows[i], e), v \in SeqRange(EdgeVals(S[i], e))} : i \in 1..Len(S)}
        seen == [i \in 1..Len(g.edges) |-> <<KeyOf(<<g.edges[i].a, g.edges[i].b>>, e), g.edges[i].key>>]
        In(f, x, how) == \E i \in 1..Len(S) : \E j \in 1..Len(S[i][f]) : NodeOf(S[i][f][j], how) = x
        Fields(x) == {e.tags[j] : j \in {k \in 1..Len(e.tags) : In(e.tags[k], x, e.stems[k])}}
        Attr(x) == UNION {{TextOf(S[i][e.nodeAttr][j]) : j \in 1..Len(S[i][e.nodeAttr])} : i \in {k \in 1..Len(S) : x \in SeqRange(LevelRow(rows[k]))}}
    IN Failing({<<"directedness", g.directed = e.directed>>,
                <<"node set", Len(g.nodes) = Cardinality(NodeSet(g)) /\ NodeSet(g) = NodesOf(rows)>>,
                <<"node counts", \A i \in 1..Len(g.nodes) : g.nodes[i].count = IF e.count THEN NodeCount(rows, g.nodes[i].id) ELSE 0 - 1>>,
                <<"node types", \A i \in 1..Len(g.nodes) : IF e.recordType THEN g.nodes[i].type \in Fields(g.nodes[i].id) ELSE g.nodes[i].type = "~">>,
                <<"node attributes", \A i \in 1..Len(g.nodes) :
                     IF e.nodeAttr = "" THEN g.nodes[i].attr = <<"~">> ELSE SeqRange(g.nodes[i].attr) = Attr(g.nodes[i].id)>>,
                <<"edge set", NoDups(seen) /\ SeqRange(seen) = want>>,
                <<"edge weights", \A i \in 1..Len(g.edges) : g.edges[i].w = IF e.weight THEN WeightOf(S, rows, e, g.edges[i].a, g.edges[i].b, g.edges[i].key) ELSE 0 - 1>>,
                <<"no other attributes", \A i \in 1..Len(g.nodes) : g.nodes[i].extra = <<>> >>,
                <<"no other edge attributes", \A i \in 1..Len(g.edges) : g.edges[i].extra = <<>> >>})

Sorted(q, desc) == \A i \in 1..(Len(q) - 1) : IF desc THEN q[i] >= q[i + 1] ELSE q[i] <= q[i + 1]
\* ranked series: form is "pandas", "counts", "ranks" or "entries"
Ranked(S, e) ==
    LET lim == SeqRange(e.limit)
        want == ValsOf(S, e.tag, lim)
        cs == [i \in 1..Len(e.entry) |-> ValCount(S, e.tag, e.entry[i])]
        fcs == [i \in 1..Len(e.file) |-> e.file[i][2]]
    IN Failing({<<"ranked series: entries", NoDups(e.entry) /\ SeqRange(e.entry) = want>>,
                <<"ranked series: order", Sorted(cs, e.greatest)>>,
                <<"ranked series: counts", e.form \in {"pandas", "counts"} => e.count = cs>>,
                <<"ranked series: ranks", e.form \in {"pandas", "ranks"} => e.rank = [i \in 1..Len(e.entry) |-> RankOf(S, e.tag, lim, e.entry[i])]>>,
                <<"ranked series: file", e.hasFile => /\ Len(e.file) = Cardinality(want) /\ {e.file[i][1] : i \in 1..Len(e.file)} = {TextOf(v) : v \in want}
                                                      /\ \A i \in 1..Len(e.file) : \E v \in want : TextOf(v) = e.file[i][1] /\ ValCount(S, e.tag, v) = e.file[i][2]
                                                      /\ Sorted(fcs, e.greatest)>>,
                <<"ranked series: file header", e.hasFile => e.header = <<e.tag, "count">> >>})
YearNum(y) == IntOf(TextOf(y))
Time(S, e) ==
    LET lim == SeqRange(e.limit)
        want == IF e.tag = "" THEN {<<S[i].id[1], S[i].year[1]>> : i \in {j \in 1..Len(S) : S[j].year # <<>>}} ELSE TimePairs(S, e.tag, lim)
        got == [i \in 1..Len(e.entry) |-> <<e.entry[i], e.year[i]>>]
        ys == [i \in 1..Len(e.year) |-> YearNum(e.year[i])]
        \* without years: the entries in an order some sorting by year gives
        cnt == [i \in 1..Len(e.count) |-> IF e.tag = "" THEN 1 ELSE YearCount(S, e.tag, e.entry[i], e.year[i])]
    IN Failing({<<"time series: entries and years", IF e.form = "entries" THEN \A v \in {p[1] : p \in want} \cup SeqRange(e.entry) : Occ(e.entry, v) = Cardinality({p \in want : p[1] = v})
                                                    ELSE Len(e.entry) = Len(e.year) /\ NoDups(got) /\ SeqRange(got) = want>>,
                <<"time series: order", e.form # "entries" => Sorted(ys, e.greatest)>>,
                <<"time series: counts", e.form = "pandas" => Len(e.count) = Len(e.entry) /\ e.count = cnt>>,
                <<"time series: file", e.hasFile => /\ Len(e.file) = Cardinality({p[1] : p \in want})
                                                    /\ \A i \in 1..Len(e.file) : LET ps == {p \in want : TextOf(p[1]) = e.file[i][1]}
                                                         IN ps # {} /\ SameBag(Split(e.file[i][2], "|"), LET F[T \in SUBSET ps] == IF T = {} THEN <<>> ELSE LET t == CHOOSE t \in T : TRUE IN <<TextOf(t[2])>> \o F[T \ {t}] IN F[ps])>>})
CoTable(S, e) ==
    LET keys == ValsOf(S, e.tag, {})
        got == {<<e.table[i][1], e.table[i][2]>> : i \in 1..Len(e.table)}
    IN Failing({<<"co-occurrence: keys", NoDups(e.keys) /\ SeqRange(e.keys) = keys>>,
                <<"co-occurrence: pairs", Len(e.table) = Cardinality(got) /\ got = CoOccPairs(S, e.tag, e.tags)>>,
                <<"co-occurrence: counts", \A i \in 1..Len(e.table) : e.table[i][3] = CoOcc(S, e.tag, e.tags, e.table[i][1], e.table[i][2])>>})

MyStep(s, e) == [st |-> s,
    bad |-> CASE e.op \in {"level", "modes"} -> Net(s, e)
              [] e.op = "ranked" -> Ranked(s, e)
              [] e.op = "time" -> Time(s, e)
              [] e.op = "cooc" -> CoTable(s, e)
              [] e.op = "refused" -> Failing({<<"refused: " \o e.what, e.out \in SeqRange(e.want)>>})]
=============================================================================
