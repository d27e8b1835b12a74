----------------------------- MODULE Trace_Bibtex -----------------------------
(* case.pool: the records, [src, f, bad, odd]; odd: the fields whose values have  *)
(* no text of their own (mappings, grants), as [t, l, v].                          *)
EXTENDS MKTrace, MKDecode
BT == INSTANCE MKBibtex
MyInit(c) == [pool |-> c.pool]
COMMON == <<"year", "volume", "beginningPage", "DOI", "address", "j9", "citations", "grants", "selfCitation", "authorsShort", "authorsFull", "title",
            "journal", "keywords", "abstract", "id">>
Odd(p, t) == \E i \in 1..Len(p.odd) : p.odd[i].t = t
OddAt(p, t) == p.odd[CHOOSE i \in 1..Len(p.odd) : p.odd[i].t = t]
ListText(v, wos) == Join(v, IF wos THEN "\n   " ELSE " and ")
TextIn(p, t, wos) ==
    IF Odd(p, t) THEN LET o == OddAt(p, t) IN IF o.l THEN ListText(o.v, wos) ELSE o.v[1]
    ELSE LET x == View(p.src, p.f, t) IN CASE x.k = "i" -> ToString(x.v) [] x.k \in {"l", "c"} -> ListText(x.v, wos) [] OTHER -> x.v
Present(p, t) == Odd(p, t) \/ There(View(p.src, p.f, t))
Asked(p, restricted) == IF restricted THEN SelectSeq(COMMON, LAMBDA t : Present(p, t)) ELSE [i \in 1..Len(p.f) |-> p.f[i].t]
Fields(p, e) == LET a == Asked(p, e.restricted) IN [i \in 1..Len(a) |-> <<a[i], TextIn(p, a[i], e.wos)>>]
Authors(p) == LET a == View(p.src, p.f, "authorsFull") IN IF a.k = "a" THEN <<>> ELSE a.v
AuthorText(p) == IF ~There(View(p.src, p.f, "authorsFull")) THEN "None" ELSE Join(Authors(p), " and ")
Plainly(p, t) == LET x == View(p.src, p.f, t) IN IF Says(x) THEN TextOf(x) ELSE ""
IdOf(p) == p.id
KeyOf(p, e) ==
    BT!Clean(IF e.nice THEN BT!NiceKey(IF Authors(p) = <<>> THEN "" ELSE Authors(p)[1], Plainly(p, "year"), Plainly(p, "month"), Plainly(p, "title"), IdOf(p))
             ELSE IF e.wos /\ StartsWith(IdOf(p), "WOS:") THEN "ISI:" \o From(IdOf(p), 5) ELSE IdOf(p))
Judged(p, e) == /\ BT!Balanced(AuthorText(p)) /\ ~Contains(AuthorText(p), BT!BS)
                /\ \A x \in {Fields(p, e)[i][2] : i \in 1..Len(Fields(p, e))} : BT!Writable(x, e.max, e.wos)
\* The end of a value longer than the limit that fills no whole piece is missing: a known defect,
\* judged on the cases of the known findings only (e.full)
FieldOk(want, got, e) ==
    LET t == BT!TextOf(got.p)
    IN /\ got.n = BT!Clean(want[1])
       /\ t = want[2] \/ (~e.wos /\ ~e.full /\ Len(want[2]) > e.max /\ t = BT!Whole(want[2], e.max))
\* the first failing condition of entry x as the entry of record p
Wrong(p, e, x) ==
    LET want == TLCEval(Fields(p, e))
        rest == SubSeq(x.fields, 2, Len(x.fields))
    IN IF x.fields = <<>> \/ x.fields[1].n # "author" \/ BT!TextOf(x.fields[1].p) # AuthorText(p) THEN "authors joined with and"
       ELSE IF x.key # KeyOf(p, e) THEN "its identifier"
       ELSE IF Len(rest) # Len(want) THEN "exactly the fields asked for"
       ELSE IF \E i \in 1..Len(want) : \A j \in 1..Len(rest) : rest[j].n # BT!Clean(want[i][1]) THEN "exactly the fields asked for"
       ELSE IF \E i \in 1..Len(want) : \A j \in 1..Len(rest) : ~FieldOk(want[i], rest[j], e) THEN "every field with its complete value"
       ELSE IF ~e.wos /\ \E j \in 1..Len(rest) : \E k \in 1..Len(rest[j].p) : Len(rest[j].p) > 1 /\ Len(rest[j].p[k].t) > e.max THEN "no string longer than the limit"
       ELSE IF ~e.wos /\ \E j \in 1..Len(rest) : Len(rest[j].p) = 1 /\ Len(BT!TextOf(rest[j].p)) > e.max THEN "no string longer than the limit"
       ELSE ""
OneStep(q, e) ==
    LET p == q.pool[e.i]
        r == TLCEval(BT!Read(e.text))
    IN IF p.bad THEN Failing({<<"a damaged record is refused", e.out = "BadRecord">>})
       ELSE IF e.out # "ok" THEN {"bibString: outcome"}
       ELSE IF ~Judged(p, e) THEN {}
       ELSE IF ~r.ok \/ Len(r.x) # 1 THEN {"the entry is well formed"}
       ELSE LET w == Wrong(p, e, r.x[1]) IN IF w = "" THEN {} ELSE {w}
FileStep(q, e) ==
    LET bad == \E i \in 1..Len(q.pool) : q.pool[i].bad
        good == SelectSeq(q.pool, LAMBDA p : ~p.bad)
        r == TLCEval(BT!Read(e.text))
        fits == TLCEval([i \in 1..Len(good) |-> {j \in 1..Len(r.x) : Wrong(good[i], e, r.x[j]) = ""}])
        alike(i) == {j \in 1..Len(good) : fits[j] = fits[i]}
    IN IF e.out # "ok" THEN Failing({<<"writeBib: outcome", bad /\ e.out = "BadRecord">>})
       ELSE IF \E i \in 1..Len(good) : ~Judged(good[i], e) THEN {}
       ELSE IF ~r.ok THEN {"the file is well formed"}
       ELSE Failing({<<"one entry per record", Len(r.x) = Len(good)>>,
                     <<"an entry for every record", \A i \in 1..Len(good) : fits[i] # {} /\ Cardinality(fits[i]) = Cardinality(alike(i))>>,
                     <<"writes its file only", e.name>>})
MyStep(q, e) == [st |-> q, bad |->
    CASE e.op = "bib" -> OneStep(q, e)
      [] e.op = "file" -> FileStep(q, e)
      [] e.op = "after" -> Failing({<<"the collection and its records are as before", e.same>>})]
=============================================================================
