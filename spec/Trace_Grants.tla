----------------------------- MODULE Trace_Grants -----------------------------
EXTENDS MKTrace, MKGrants
(* case.grants: abstract grants [kind, f] (for the networks); <<>> otherwise. *)
MyInit(case) == case.grants

(* tables: e.files: sequence of [name, kind, header, rows]; e.got: the grants seen *)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
KeyCol(h, k) == IndexOf(h, k)
Cells(f) == [i \in 1..Len(f.rows) |-> Padded(f.rows[i], Len(f.header))]
\* the rows of f with their columns in the order of header h (the same columns)
Aligned(f, h) == LET c == Cells(f) IN [i \in 1..Len(c) |-> [j \in 1..Len(h) |-> c[i][KeyCol(f.header, h[j])]]]
AsFields(h, cells) == {[k |-> h[c], kind |-> "text", v |-> <<cells[c]>>] : c \in 1..Len(h)}
\* grants of the NSERC files read in the order p: all have the same columns
Nserc(fs, p) == LET rows == FlattenSeqs([i \in 1..Len(fs) |-> Aligned(fs[p[i]], fs[1].header)])
                    h == fs[1].header
                    kc == KeyCol(h, "Cle")
                IN IF kc = 0 THEN [merged |-> {}, keyless |-> [i \in 1..Len(rows) |-> AsFields(h, rows[i])]]
                   ELSE [merged |-> {[id |-> "NSERC:" \o k, f |-> AsFields(h, MergedGrant(rows, kc, k, Len(h)))] : k \in KeysIn(rows, kc)},
                         keyless |-> LET q == Keyless(rows, kc) IN [i \in 1..Len(q) |-> AsFields(h, q[i])]]
GrantsOf(got, cls) == SelectSeq(got, LAMBDA g : g.cls = cls)
FieldSet(g) == SeqRange(g.f)
Tables(e) ==
    LET fs == SelectSeq(e.files, LAMBDA f : f.kind = "NSERC")
        nserc == GrantsOf(e.got, "NSERCGrant")
        good == SelectSeq(nserc, LAMBDA g : ~g.bad)
        bad == SelectSeq(nserc, LAMBDA g : g.bad)
        want(p) == Nserc(fs, p)
        Plain(kind) == FlattenSeqs([i \in 1..Len(e.files) |-> IF e.files[i].kind # kind THEN <<>>
                          ELSE LET c == Cells(e.files[i]) IN [j \in 1..Len(c) |-> AsFields(e.files[i].header, c[j])]])
        fall == GrantsOf(e.got, "FallbackGrant")
        cihr == GrantsOf(e.got, "CIHRGrant")
        HasPI(F) == \E f \in F : f.k = "PI Names" /\ f.v # <<"">>
    IN Failing({<<"table: unexpected kind of grant", \A i \in 1..Len(e.got) : e.got[i].cls \in {f.kind \o "Grant" : f \in SeqRange(e.files)}>>,
                <<"table: a grant per key, merged from its rows",
                   IF fs = <<>> THEN nserc = <<>>
                   ELSE \E p \in Perms(Len(fs)) : LET w == want(p) IN /\ {[id |-> good[i].id, f |-> FieldSet(good[i])] : i \in 1..Len(good)} = w.merged
                                                                      /\ Len(good) = Cardinality(w.merged)>>,
                <<"table: rows without key are damaged", fs # <<>> => SameBag([i \in 1..Len(bad) |-> FieldSet(bad[i])], want([i \in 1..Len(fs) |-> i]).keyless)>>,
                <<"table: other rows are grants", SameBag([i \in 1..Len(fall) |-> FieldSet(fall[i])], Plain("Fallback")) /\ \A i \in 1..Len(fall) : ~fall[i].bad>>,
                <<"table: CIHR rows are grants", SameBag([i \in 1..Len(cihr) |-> FieldSet(cihr[i])], Plain("CIHR"))>>,
                <<"table: CIHR rows without names are damaged", \A i \in 1..Len(cihr) : cihr[i].bad <=> ~HasPI(FieldSet(cihr[i]))>>,
                <<"table: identities", \A i, j \in 1..Len(e.got) : (i # j /\ ~e.got[i].bad /\ ~e.got[j].bad) => e.got[i].id # e.got[j].id>>,
                <<"table: damaged grants carry an error", \A i \in 1..Len(e.got) : e.got[i].bad <=> e.got[i].err # "n:">>,
                <<"table: the reading reports no trouble", ~e.bad /\ e.nerr = 0>>,
                <<"table: kinds collected", e.types = {f.kind \o "Grant" : f \in SeqRange(e.files)}>>})
Award(e) ==
    LET want == AwardFields(e.award)
        idf == {f \in want : f.k = "AwardID" /\ f.kind = "text"}
        g == e.got[1]
    IN IF Len(e.got) # 1 THEN {"award: one grant"}
       ELSE Failing({<<"award: fields", FieldSet(g) = want /\ Len(g.f) = Cardinality(want)>>,
                     <<"award: damaged without number", g.bad <=> idf = {}>>,
                     <<"award: identity", g.id = "NSF:" \o (IF idf = {} THEN e.file ELSE (CHOOSE f \in idf : TRUE).v[1])>>,
                     <<"award: kind", g.cls = "NSFGrant">>,
                     <<"award: the reading reports no trouble", ~e.bad /\ e.nerr = 0>>})
Text(e) ==
    LET want == IF e.op = "medline" THEN MedlineGrant(e.text) ELSE ScopusGrant(e.text)
        got == {[k |-> e.f[i].k, v |-> e.f[i].v[1]] : i \in 1..Len(e.f)}
        spelt == IF e.op = "medline" THEN MedlineSpelt(got) ELSE ScopusSpelt(got)
    IN Failing({<<e.op \o " grant: parts", got = want /\ Len(e.f) = Cardinality(want)>>,
                <<e.op \o " grant: no text lost", spelt = e.text>>,
                <<e.op \o " grant: damaged", e.bad <=> (e.op = "medline" /\ ~Contains(e.text, "/"))>>})

RowsFor(S, e) == [i \in 1..Len(S) |-> NameRow(S[i].kind, S[i].f, e.tags, e.sep, e.level)]
NamesEv(S, e) == Failing({<<"names: " \o e.level, SameBag(e.got, LevelRow(RowsFor(S, e)[1]))>>})
Net(S, e) ==
    LET g == e.g
        rows == RowsFor(S, e)
        ids == {g.nodes[i].id : i \in 1..Len(g.nodes)}
        pairs == [i \in 1..Len(g.edges) |-> {g.edges[i].a, g.edges[i].b}]
        Fields(x) == UNION {LET q == NameFields(S[i].kind, S[i].f, e.tags, e.level) IN {q[j].k : j \in {k \in 1..Len(q) : Occ(rows[i][k], x) > 0}} : i \in 1..Len(S)}
    IN Failing({<<"undirected", ~g.directed>>,
                <<"node set", Len(g.nodes) = Cardinality(ids) /\ ids = NodesOf(rows)>>,
                <<"node counts", \A i \in 1..Len(g.nodes) : g.nodes[i].count = IF e.count THEN NodeCount(rows, g.nodes[i].id) ELSE 0 - 1>>,
                <<"node fields", \A i \in 1..Len(g.nodes) : g.nodes[i].type \in Fields(g.nodes[i].id)>>,
                <<"edge set", NoDups(pairs) /\ SeqRange(pairs) = UNION {{{a[1], a[2]} : a \in SeqRange(LevelArcs(rows[i]))} : i \in 1..Len(S)}>>,
                <<"edge weights", \A i \in 1..Len(g.edges) : g.edges[i].w = IF e.weight
                      THEN SumSeq([j \in 1..Len(S) |-> LevelCount(rows[j], g.edges[i].a, g.edges[i].b)]) ELSE 0 - 1>>,
                <<"no other attributes", (\A i \in 1..Len(g.nodes) : g.nodes[i].extra = <<>>) /\ \A i \in 1..Len(g.edges) : g.edges[i].extra = <<>> >>})

MyStep(s, e) == [st |-> s,
    bad |-> CASE e.op = "tables" -> Tables([e EXCEPT !.types = SeqRange(@)])
              [] e.op = "award" -> Award(e)
              [] e.op \in {"medline", "scopus"} -> Text(e)
              [] e.op = "names" -> NamesEv(s, e)
              [] e.op = "network" -> Net(s, e)]
=============================================================================
