----------------------------- MODULE Trace_Medline -----------------------------
EXTENDS MKTrace, MKMedline
(* kind "read": case.lines are the lines of the file; kind "trip": case.recs  *)
(* the blocks of a collection that is written and read back.                  *)
MyInit(case) == IF case.kind = "read" THEN [k |-> "read", r |-> Read(case.lines, 1)]
                ELSE [k |-> "trip", recs |-> case.recs, r |-> Start0]
Good(e) == SelectSeq(e.recs, LAMBDA x : ~x.bad)
HasId(f) == "PMID" \in SeqRange(Tags(f))
SameRecs(got, recs) == /\ Len(got) = Cardinality({IdOf(recs[i]) : i \in 1..Len(recs)})
                       /\ \A i \in 1..Len(recs) : \E j \in 1..Len(got) : \E k \in 1..Len(recs) :
                             IdOf(recs[k]) = IdOf(recs[i]) /\ SameFields(got[j].f, recs[k])
ReadClauses(r, e) ==
  LET g == Good(e)
      ids == {IdOf(r.recs[i].f) : i \in 1..Len(r.recs)}
  IN {<<"reading: never raises", e.out = "ok">>,
      <<"reading: one record per block", \A k \in ids : \E i \in 1..Len(g) : HasId(g[i].f) /\ IdOf(g[i].f) = k>>,
      <<"reading: once each", \A i, j \in 1..Len(g) : (i # j) => ~(HasId(g[i].f) /\ HasId(g[j].f) /\ IdOf(g[i].f) = IdOf(g[j].f))>>,
      <<"reading: with exactly the tags and values of the file", \A i \in 1..Len(g) : \E j \in 1..Len(r.recs) : r.recs[j].f = g[i].f>>,
      <<"reading: source", e.srcok /\ \A i \in 1..Len(g) : \E j \in 1..Len(r.recs) : r.recs[j].f = g[i].f => r.recs[j].at = g[i].at>>,
      <<"reading: damage is marked", r.damage => (e.bad \/ \E i \in 1..Len(e.recs) : e.recs[i].bad)>>,
      <<"reading: errors belong to the file", (e.bad <=> e.errs # <<>>) /\ \A i \in 1..Len(e.errs) : e.errs[i] = "F">>,
      <<"reading: a whole file is not marked", (~r.damage) => (~e.bad /\ Len(g) = Len(e.recs))>>}
MyStep(s, e) ==
  CASE e.op = "read" -> [st |-> s, bad |-> Failing(IF s.k = "read" THEN ReadClauses(s.r, e)
                             ELSE {<<"reading back: no error", e.out = "ok" /\ ~e.bad>>,
                                   <<"reading back: the same records", SameRecs(e.recs, s.recs) /\ \A i \in 1..Len(e.recs) : ~e.recs[i].bad>>,
                                   <<"reading back: an equal collection", e.equal>>})]
    [] e.op = "write" -> LET r == Read(e.lines, 1) IN
                         [st |-> s, bad |-> Failing({<<"writing: no error", e.out = "ok">>,
                             <<"writing: a whole file", ~r.damage>>,
                             <<"writing: exactly the records", SameRecs([i \in 1..Len(r.recs) |-> [f |-> r.recs[i].f]], s.recs) /\ Len(r.recs) = Len(s.recs)>>})]
    [] e.op = "kept" -> [st |-> s, bad |-> Failing({<<"writing leaves the collection as it was", SameRecs(e.recs, s.recs)>>})]
    [] e.op = "refuse" -> [st |-> s, bad |-> Failing({<<"a damaged record is refused", e.out = "exc:BadPubmedRecord">>})]
=============================================================================
