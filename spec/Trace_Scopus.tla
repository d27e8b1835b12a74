----------------------------- MODULE Trace_Scopus -----------------------------
EXTENDS MKTrace, MKScopus
(* kind "row": one row given to the record constructor with header case.h;     *)
(* kind "read": a file with header case.h and rows case.lines; kind "trip": a  *)
(* collection of the records case.recs (sequences of [c, x]) written and read. *)
Set(f) == SeqRange(f)
MyInit(case) == CASE case.kind = "trip" -> [k |-> "trip", h |-> case.h, recs |-> {Set(case.recs[i]) : i \in 1..Len(case.recs)}]
                  [] OTHER -> [k |-> case.kind, h |-> case.h, r |-> ReadRows(case.h, case.lines)]
Good(e) == SelectSeq(e.recs, LAMBDA x : ~x.bad)
Distinct(g) == \A i, j \in 1..Len(g) : (i # j) => IdOf(Set(g[i].f)) # IdOf(Set(g[j].f))
Same(got, R) == /\ Distinct(got)
                /\ \A i \in 1..Len(got) : Set(got[i].f) \in R
                /\ \A F \in R : \E i \in 1..Len(got) : IdOf(Set(got[i].f)) = IdOf(F)
ReadClauses(s, e) ==
  LET g == Good(e) R == {x.f : x \in s.r.recs} IN
  {<<"reading: never raises", e.out = "ok">>,
   <<"reading: one record per row", \A F \in R : \E i \in 1..Len(g) : IdOf(Set(g[i].f)) = IdOf(F)>>,
   <<"reading: once each", Distinct(g)>>,
   <<"reading: exactly the non-empty cells under their column names", \A i \in 1..Len(g) : NoDups(g[i].f) /\ Set(g[i].f) \in R>>,
   <<"reading: source", e.srcok /\ \A i \in 1..Len(g) : Set(g[i].f) \in R => \E x \in s.r.recs : x.f = Set(g[i].f) /\ x.at = g[i].at>>,
   <<"reading: rows that cannot be records are reported", s.r.damage => (e.bad \/ Len(g) < Len(e.recs))>>,
   <<"reading: a whole file is not marked", (~s.r.damage) => (~e.bad /\ Len(g) = Len(e.recs))>>,
   <<"reading: errors belong to the file", (e.bad <=> e.errs # <<>>) /\ \A i \in 1..Len(e.errs) : e.errs[i] = "F">>}
MyStep(s, e) ==
  CASE e.op = "read" -> [st |-> s, bad |-> Failing(IF s.k # "trip" THEN ReadClauses(s, e)
                           ELSE {<<"reading back: no error", e.out = "ok" /\ ~e.bad>>,
                                 <<"reading back: the same field values", Same(Good(e), s.recs) /\ Len(Good(e)) = Len(e.recs)>>,
                                 <<"reading back: an equal collection", e.equal>>,
                                 <<"reading back: the same decoded citations, authors and grants", e.decoded>>})]
    [] e.op = "write" -> [st |-> s, bad |-> Failing({<<"writing: no error", e.out = "ok">>,
                           <<"writing: header", e.header = s.h>>,
                           <<"writing: exactly the records", LET r == ReadRows(s.h, e.lines) IN ~r.damage /\ {x.f : x \in r.recs} = s.recs /\ Len(e.lines) = Cardinality(s.recs)>>})]
    [] e.op = "kept" -> [st |-> s, bad |-> Failing({<<"writing leaves the collection as it was", Same(e.recs, s.recs)>>})]
    [] e.op = "refuse" -> [st |-> s, bad |-> Failing({<<"a record that is none is refused", e.out = "exc:BadScopusRecord">>})]
=============================================================================
