---------------------------- MODULE Trace_ProQuest ----------------------------
EXTENDS MKTrace, MKProQuest
(* case.lines: the lines of the file; events "read" [out, bad, errs, srcok,    *)
(* recs: [bad, f, at, d]] where d are decoded values, each [has, v].           *)
MyInit(case) == case.lines
Same(d, b, t, v) == IF Has(b, t) THEN d.has /\ d.v = v ELSE ~d.has
Decoded(x) ==
  LET b == x.f d == x.d IN
  {<<"decoded: title", Same(d.title, b, "Title", IF Has(b, "Title") THEN First(b, "Title") ELSE "")>>,
   <<"decoded: authors", Same(d.authors, b, "Author", IF Has(b, "Author") THEN Authors(b) ELSE <<>>)>>,
   <<"decoded: short author names", Same(d.short, b, "Author", IF Has(b, "Author") THEN Authors(b) ELSE <<>>)>>,
   <<"decoded: keywords", Same(d.keywords, b, "Identifier / keyword", IF Has(b, "Identifier / keyword") THEN Keywords(b) ELSE <<>>)>>,
   <<"decoded: subjects", Same(d.subjects, b, "Subject", IF Has(b, "Subject") THEN Subjects(b) ELSE <<>>)>>,
   <<"decoded: classification", Same(d.classes, b, "Classification", IF Has(b, "Classification") THEN Classes(b) ELSE <<>>)>>,
   <<"decoded: year", Same(d.year, b, "Degree date", IF Has(b, "Degree date") THEN Year(b) ELSE 0)>>,
   <<"decoded: abstract", Same(d.abstract, b, "Abstract", IF Has(b, "Abstract") THEN Abstract(b) ELSE "")>>,
   <<"decoded: url", Same(d.url, b, "url", ValuesOf(b, "url"))>>}
MyStep(ls, e) ==
  LET r == TLCEval(Read(ls))
      g == SelectSeq(e.recs, LAMBDA x : ~x.bad)
      ids == {IdOf(r.recs[i].f) : i \in 1..Len(r.recs)}
  IN [st |-> ls, bad |-> Failing(
     {<<"never raises", e.out = "ok">>,
      <<"one record per document", \A k \in ids : \E i \in 1..Len(g) : Has(g[i].f, IdTag) /\ IdOf(g[i].f) = k>>,
      <<"once each", \A i, j \in 1..Len(g) : (i # j) => ~(Has(g[i].f, IdTag) /\ Has(g[j].f, IdTag) /\ IdOf(g[i].f) = IdOf(g[j].f))>>,
      <<"exactly the labelled fields and their values", \A i \in 1..Len(g) : \E j \in 1..Len(r.recs) : r.recs[j].f = g[i].f>>,
      <<"source", e.srcok /\ \A i \in 1..Len(g) : \E j \in 1..Len(r.recs) : r.recs[j].f = g[i].f => r.recs[j].at = g[i].at>>,
      <<"damage is marked", r.damage => (e.bad \/ Len(g) < Len(e.recs))>>,
      <<"errors belong to the file", (e.bad <=> e.errs # <<>>) /\ \A i \in 1..Len(e.errs) : e.errs[i] = "F">>,
      <<"a whole file is not marked", (~r.damage) => (~e.bad /\ Len(g) = Len(e.recs))>>}
     \cup UNION {Decoded(g[i]) : i \in 1..Len(g)})]
=============================================================================
