------------------------------ MODULE MKNetwork ------------------------------
(***************************************************************************)
(* The networks a record collection is turned into.                        *)
(*                                                                         *)
(* An abstract record is [id, own, cites, full, short, vals]: own is the   *)
(* parsed citation (MKCitation) other records would use for it, cites the  *)
(* sequence of its parsed citations, full/short its author names, vals a   *)
(* function from tag to the strings of that tag (<<>> when absent).        *)
(* jd is the journal table: a set of <<abbreviation, full name>>.          *)
(*                                                                         *)
(* Each network is given twice: as the incremental construction the        *)
(* analysis performs record by record (AddTo...), and as closed forms      *)
(* (Node.../Edge...) over the set of records.  MC_Network shows that the   *)
(* incremental construction, in every order, ends in the closed form; the  *)
(* trace specification compares the real graphs with the closed form.      *)
(* A graph here is [cnt |-> bag of node ids, w |-> bag of edge keys].      *)
(***************************************************************************)
EXTENDS MKCitation, MKCommon

NodeTypes == {"full", "original", "author", "journal", "year"}

\* the node a citation becomes; ids are tagged with their type ("s:" text, "i:" number)
NodeId(c, type) ==
    CASE type = "full" -> "s:" \o c.id
      [] type = "original" -> "s:" \o c.original
      [] type = "author" -> "s:" \o c.author
      [] type = "journal" -> "s:" \o c.journal
      [] type = "year" -> "i:" \o YearText(c.year)
HasNode(c, type) ==
    CASE type = "full" -> TRUE
      [] type = "original" -> c.original # ""
      [] type = "author" -> c.hasA /\ c.author # ""
      [] type = "journal" -> c.journal # ""
      [] type = "year" -> c.year # NoYear /\ c.year # 0

IsJournal(c, jd) == c.journal # "" /\ \E p \in jd : p[1] = c.journal /\ p[2] # ""
FullName(c, jd) == IF IsJournal(c, jd) THEN (CHOOSE p \in jd : p[1] = c.journal)[2] ELSE "None"

\* o: [type, dropAnon, nonJ, kw (set of words), coreOnly]; core: the set of own identities
Passes(c, o, jd, core) ==
    /\ HasNode(c, o.type)
    /\ o.nonJ => IsJournal(c, jd)
    /\ o.dropAnon => ~c.anon
    /\ o.coreOnly => c.id \in core
    /\ \A k \in o.kw : ~Contains(Upper(c.original), Upper(k))
Core(S) == {r.own.id : r \in S}
Kept(r, o, jd, core) == SelectSeq(r.cites, LAMBDA c : Passes(c, o, jd, core))
KeptIds(r, o, jd, core) == LET k == Kept(r, o, jd, core) IN [i \in 1..Len(k) |-> NodeId(k[i], o.type)]

(*------------------------------- co-citation ----------------------------*)
\* K: sequence (one entry per record) of id sequences
PairCount(ids, x, y) == IF x = y THEN LET k == Occ(ids, x) IN (k * (k - 1)) \div 2 ELSE Occ(ids, x) * Occ(ids, y)
CoCount(K, x) == SumSeq([i \in 1..Len(K) |-> Occ(K[i], x)])
CoWeight(K, x, y) == SumSeq([i \in 1..Len(K) |-> PairCount(K[i], x, y)])
CoNodes(K) == UNION {SeqRange(K[i]) : i \in 1..Len(K)}
CoEdges(K) == UNION {{{K[i][a], K[i][b]} : <<a, b>> \in {p \in (1..Len(K[i])) \X (1..Len(K[i])) : p[1] < p[2]}} : i \in 1..Len(K)}

(*-------------------------------- citation ------------------------------*)
\* a record takes part when its own citation passes the filters and it cites something
TakesPart(r, o, jd, core) == Len(r.cites) > 0 /\ Passes(r.own, o, jd, core)
\* H: sequence of [h |-> head id, ids |-> kept ids]
CiCount(H, x) == SumSeq([i \in 1..Len(H) |-> Occ(H[i].ids, x) + (IF H[i].h = x THEN 1 ELSE 0)])
CiNodes(H) == UNION {SeqRange(H[i].ids) \cup {H[i].h} : i \in 1..Len(H)}
\* arcs <<citing, cited>>
CiArcs(H) == UNION {{<<H[i].h, H[i].ids[j]>> : j \in 1..Len(H[i].ids)} : i \in 1..Len(H)}
CiWeight(H, a) == SumSeq([i \in 1..Len(H) |-> IF H[i].h = a[1] THEN Occ(H[i].ids, a[2]) ELSE 0])
\* the key of an arc in the graph: direction as requested, none when undirected
ArcKey(a, directed, toCite) == IF ~directed THEN <<{a[1], a[2]}>> ELSE IF toCite THEN a ELSE <<a[2], a[1]>>
CiKeyWeight(H, key, directed, toCite) == LET A == {a \in CiArcs(H) : ArcKey(a, directed, toCite) = key}
                                         IN SumSet(A, [a \in A |-> CiWeight(H, a)])

(*-------------------------- bibliographic coupling ----------------------*)
Shared(r, s) == Cardinality({r.cites[i].id : i \in 1..Len(r.cites)} \cap {s.cites[i].id : i \in 1..Len(s.cites)})
BibNodes(S) == {r \in S : Len(r.cites) > 0 \/ \E s \in S : \E i \in 1..Len(s.cites) : s.cites[i].id = r.own.id}

(*-------------------------- expansion of the core -----------------------*)
\* V: set of sequences, for every record of the collection the nodes its citation has
\* with each of its authors (the first is the record's own).  A graph [n, e, directed]
\* with e a set of pairs, both directions of every pair when it is undirected.
RECURSIVE ExClosure(_, _)
ExClosure(N, V) == LET M == N \cup UNION {SeqRange(v) : v \in {u \in V : SeqRange(u) \cap N # {}}} IN IF M = N THEN N ELSE ExClosure(M, V)
ExOwn(g, V) == {v \in V : Len(v) > 1 /\ v[1] \in g.n}
ExKept(g, x) == g.n \subseteq x.n /\ g.e \subseteq x.e
ExEvery(g, x, V) == \A v \in ExOwn(g, V) : SeqRange(v) \subseteq x.n
ExOnly(g, x, V) == x.n \subseteq ExClosure(g.n, V)
ExBetween(g, x, V) == \A v \in ExOwn(g, V) : \A i, j \in 1..Len(v) : (i < j /\ v[i] # v[j]) => (<<v[i], v[j]>> \in x.e \/ <<v[j], v[i]>> \in x.e)
ExCopied(g, x, V) == \A v \in ExOwn(g, V) : \A p \in g.e : p[1] = v[1] => \A j \in 2..Len(v) : v[j] = v[1] \/ <<v[j], p[2]>> \in x.e
ExTouches(g, x, V) == LET W == UNION {SeqRange(v) : v \in {u \in V : Len(u) > 1}} IN \A p \in x.e \ g.e : p[1] \in W \/ p[2] \in W

(*-------------------------------- co-author -----------------------------*)
Names(r, short) == IF short THEN r.short ELSE r.full
=============================================================================
