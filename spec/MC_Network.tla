------------------------------ MODULE MC_Network ------------------------------
(***************************************************************************)
(* The incremental construction of the four record networks, one record at *)
(* a time in any order, against their closed forms; and every small        *)
(* (collection, options) pair as a conformance case.                       *)
(***************************************************************************)
EXTENDS MKNetwork, Json
CONSTANTS Slots, Mode, Wide
\* texts of citations; the first three are what the records of slots 1..3 are cited as
Text == <<"Own A, 1999, NATURE", "Own B, 2000, BOOK TITLE", "[Anonymous], 1999, J PHYS",
          "Zed Q, 1999, NATURE, V1, P2", "ZED Q, 1999, NATURE, V9", "Anon X, 2001", "Mab, NATURE, P3">>
P == [i \in 1..Len(Text) |-> ParseWOS(Text[i])]
CiteKinds == <<<<>>, <<4>>, <<4, 5>>, <<1, 2, 4>>, <<2, 3, 6>>, <<5, 7, 7, 3>>, <<4, 4, 1>>, <<3, 1>>>>
AuthKinds == <<<<>>, <<"A">>, <<"A", "B">>, <<"B", "C", "A">>, <<"A", "A">>, <<"C">>, <<"C", "B">>, <<"D", "A", "D">>>>
JD == {<<"NATURE", "Nature">>, <<"J PHYS", "Journal of Physics">>, <<"BOOK TITLE", "">>}
VARIABLES kind, opts, row, todo, cnt, w   \* row: what each record contributes under opts
vars == <<kind, opts, row, todo, cnt, w>>

Rec(s) == [own |-> P[s], cites |-> [i \in 1..Len(CiteKinds[kind[s]]) |-> P[CiteKinds[kind[s]][i]]], full |-> AuthKinds[kind[s]]]
Opts == IF Mode = "cocite" \/ Mode = "cite"
        THEN [type : NodeTypes, dropAnon : BOOLEAN, nonJ : IF Wide THEN BOOLEAN ELSE {FALSE}, coreOnly : BOOLEAN,
                kw : IF Wide THEN {{}, {"zed"}, {"2000", "J p"}} ELSE {{}, {"2000", "J p"}},
              directed : IF Mode = "cite" THEN BOOLEAN ELSE {FALSE}, toCite : IF Mode = "cite" THEN BOOLEAN ELSE {TRUE}]
        ELSE [type : {"full"}, dropAnon : {FALSE}, nonJ : IF Mode = "coauth" THEN BOOLEAN ELSE {FALSE}, coreOnly : {FALSE}, kw : {{}},
              directed : {TRUE}, toCite : {TRUE}]
None == [x \in {} |-> 0]
Add(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN 1 ELSE f[y]]
RECURSIVE AddAll(_, _)
AddAll(f, q) == IF q = <<>> THEN f ELSE AddAll(Add(f, Head(q)), Tail(q))

CoreIds == {P[s].id : s \in Slots}
Init == /\ kind \in [Slots -> 1..Len(CiteKinds)] /\ opts \in Opts
        /\ todo = Slots /\ cnt = None /\ w = None
        /\ row = [s \in Slots |-> [ids |-> KeptIds(Rec(s), opts, JD, CoreIds), h |-> NodeId(P[s], opts.type), part |-> TakesPart(Rec(s), opts, JD, CoreIds)]]
\* the positions i < j of a sequence as a sequence of keys
PairKeys(q) == FlattenSeqs([i \in 1..Len(q) |-> [j \in 1..(Len(q) - i) |-> {q[i], q[i + j]}]])
Step(s) ==
    /\ s \in todo /\ todo' = todo \ {s} /\ UNCHANGED <<kind, opts, row>>
    /\ LET r == Rec(s)
           ids == row[s].ids
           h == row[s].h
           part == row[s].part
       IN CASE Mode = "cocite" -> cnt' = AddAll(cnt, ids) /\ w' = AddAll(w, PairKeys(ids))
            [] Mode \in {"cite", "bib"} -> IF ~part THEN UNCHANGED <<cnt, w>>
                                ELSE /\ cnt' = AddAll(cnt, <<h>> \o ids)
                                     /\ w' = AddAll(w, [i \in 1..Len(ids) |-> ArcKey(<<h, ids[i]>>, opts.directed, opts.toCite)])
            [] Mode = "coauth" -> IF opts.nonJ /\ ~IsJournal(r.own, JD) THEN UNCHANGED <<cnt, w>>
                                  ELSE cnt' = AddAll(cnt, r.full) /\ w' = AddAll(w, PairKeys(r.full))
Next == \E s \in Slots : Step(s)
Spec == Init /\ [][Next]_vars

\* scenarios: an initial state per behaviour
EmitNext == /\ todo = Slots /\ PrintT("T " \o ToJson([kinds |-> [i \in 1..Cardinality(Slots) |-> kind[i]], o |-> opts]))
            /\ todo' = {} /\ UNCHANGED <<kind, opts, row, cnt, w>>
EmitInit == kind \in [Slots -> 1..Len(CiteKinds)] /\ opts \in Opts /\ todo = Slots /\ cnt = None /\ w = None /\ row = <<>>
SpecEmit == EmitInit /\ [][EmitNext]_vars

Done == Slots \ todo
\* records done as a sequence (any order: the closed forms are symmetric)
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
D == SeqOf(Done)
K == [i \in 1..Len(D) |-> IF Mode = "coauth" THEN (IF opts.nonJ /\ ~IsJournal(Rec(D[i]).own, JD) THEN <<>> ELSE Rec(D[i]).full)
                          ELSE row[D[i]].ids]
HD == SelectSeq(D, LAMBDA s : row[s].part)
H == [i \in 1..Len(HD) |-> [h |-> row[HD[i]].h, ids |-> row[HD[i]].ids]]
\* incremental construction = closed form, in every order
CoClosed == Mode \in {"cocite", "coauth"} =>
    /\ DOMAIN cnt = CoNodes(K) /\ \A x \in DOMAIN cnt : cnt[x] = CoCount(K, x)
    /\ DOMAIN w = CoEdges(K)
    /\ \A e \in DOMAIN w : \E x, y \in e : e = {x, y} /\ w[e] = CoWeight(K, x, y)
CiClosed == Mode \in {"cite", "bib"} =>
    /\ DOMAIN cnt = CiNodes(H) /\ \A x \in DOMAIN cnt : cnt[x] = CiCount(H, x)
    /\ DOMAIN w = {ArcKey(a, opts.directed, opts.toCite) : a \in CiArcs(H)}
    /\ \A e \in DOMAIN w : w[e] = CiKeyWeight(H, e, opts.directed, opts.toCite)
\* every weight is symmetric, and dropping citations only removes
Symmetric == Mode = "cocite" => \A e \in DOMAIN w : \A x, y \in e : CoWeight(K, x, y) = CoWeight(K, y, x)
FilterOnlyRemoves == Mode = "cocite" /\ todo = {} =>
    LET O == [opts EXCEPT !.dropAnon = FALSE, !.nonJ = FALSE, !.coreOnly = FALSE, !.kw = {}]
        K0 == [i \in 1..Len(D) |-> KeptIds(Rec(D[i]), O, JD, CoreIds)]
    IN \A x \in CoNodes(K) : CoCount(K, x) <= CoCount(K0, x)
\* coupling weights from the arcs of the citation network = number of shared citations
BibClosed == Mode = "bib" =>
    \A s, t \in Done : s # t =>
        Cardinality({a \in DOMAIN w : a[1] = NodeId(P[s], "full") /\ <<NodeId(P[t], "full"), a[2]>> \in DOMAIN w}) = Shared(Rec(s), Rec(t))
BibNodesClosed == Mode = "bib" /\ todo = {} =>
    {x \in DOMAIN cnt : \E s \in Slots : x = NodeId(P[s], "full")} = {NodeId(r.own, "full") : r \in BibNodes({Rec(s) : s \in Slots})}
=============================================================================
