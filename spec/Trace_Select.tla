----------------------------- MODULE Trace_Select -----------------------------
EXTENDS MKTrace, MKSelect
(* case.recs: the abstract records the driver built real ones from; the state *)
(* is the collection (a set of them).  Sets of records are reported by ID.    *)
\* citations of Scopus records: rendered from parts, or a text that is none
FromParts(p) == LET c == ScopusFields(p) IN [author |-> c.author, hasA |-> TRUE, year |-> c.year, journal |-> c.journal, V |-> c.V, P |-> c.P, misc |-> "",
                                             bad |-> FALSE, anon |-> FALSE, id |-> c.id, original |-> RenderScopus(p)]
JustText(t) == [author |-> "", hasA |-> FALSE, year |-> NoYear, journal |-> "", V |-> "", P |-> "", misc |-> "", bad |-> TRUE, anon |-> TRUE, id |-> t, original |-> t]
Cited(r, x) == IF r.src = "W" THEN ParseWOS(x) ELSE IF x.k = "B" THEN JustText(x.text) ELSE FromParts(x.parts)
RecOf(r) == [id |-> r.id, year |-> r.year, pt |-> r.pt, bad |-> r.bad,
             cites |-> [j \in 1..Len(r.cites) |-> Cited(r, r.cites[j])], own |-> ParseWOS(r.own)]
MyInit(case) == {RecOf(case.recs[i]) : i \in 1..Len(case.recs)}
IdsOf(S) == {r.id : r \in S}
ById(S, ids) == {r \in S : r.id \in ids}
Is(ids, S) == NoDups(ids) /\ SeqRange(ids) = IdsOf(S)

Sel(s, e) ==
  CASE e.op = "year" -> YearSplit(s, e.lo, e.hi)
    [] e.op = "journals" -> Journals(s, e.pt, e.drop, e.invert)
    [] e.op = "filter" -> CiteFilter(s, e.key, e.field, e.reverse, e.cs)
    [] e.op = "citesof" -> CitesOf(s, ParseWOS(e.text))
    [] e.op = "citesofrec" -> CitesOf(s, (CHOOSE r \in s : r.id = e.rec).own)
    [] e.op = "badentries" -> BadOnes(s)
    [] e.op = "dropbad" -> s \ BadOnes(s)

MyStep(s, e) ==
  IF e.op \in {"chunk", "split"}
  THEN LET ps == [i \in 1..Len(e.pieces) |-> ById(s, SeqRange(e.pieces[i]))]
       IN [st |-> IF e.op = "split" THEN {} ELSE s,
           bad |-> Failing({<<e.op \o ": partition", IsPartition(s, ps, e.n)>>,
                            <<e.op \o ": pieces hold only records of the collection", \A i \in 1..Len(ps) : Is(e.pieces[i], ps[i])>>,
                            <<e.op \o ": original", Is(e.after, IF e.op = "split" THEN {} ELSE s)>>,
                            <<e.op \o ": the records themselves", e.same>>})]
  ELSE IF e.op = "year" /\ ~e.drop /\ AnyYearMissing(s)
  THEN [st |-> s, bad |-> Failing({<<"year: missing year refused", e.out = "exc:TypeError">>, <<"year: original", Is(e.after, s)>>})]
  ELSE LET x == Sel(s, e)
           inplace == e.op \in {"journals", "dropbad"}
       IN [st |-> IF inplace THEN x ELSE s,
           bad |-> Failing({<<e.op \o ": selected records", e.out = "ok" /\ Is(e.got, x)>>,
                            <<e.op \o ": collection selected from", Is(e.after, IF inplace THEN x ELSE s)>>,
                            <<e.op \o ": the records themselves", e.same>>})]
=============================================================================
