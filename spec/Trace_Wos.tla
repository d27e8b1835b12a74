------------------------------- MODULE Trace_Wos -------------------------------
EXTENDS MKTrace, MKWos
(* kind "read": case.lines the lines after the header (numbered from case.n0), *)
(*   events "read": [out, bad, errs, srcok, recs: [bad, f, at]];               *)
(* kind "trip": case.recs the blocks of a collection; the state is these;      *)
(*   events "write": [out, lines], "read" as above, "block": [f, lines].       *)
Key(f) == UTOf(f)
MyInit(case) == IF case.kind = "read" THEN [k |-> "read", r |-> Read(case.lines, case.n0)]
                ELSE [k |-> "trip", recs |-> case.recs, r |-> Read(<<"EF">>, 0)]

Good(e) == SelectSeq(e.recs, LAMBDA x : ~x.bad)
SameRecs(got, recs) == /\ Len(got) = Cardinality({Key(recs[i]) : i \in 1..Len(recs)})
                       /\ \A i \in 1..Len(recs) : \E j \in 1..Len(got) : \E k \in 1..Len(recs) : Key(recs[k]) = Key(recs[i]) /\ got[j].f = recs[k]
ReadClauses(r, e) ==
  LET g == Good(e)
      hasut(f) == "UT" \in SeqRange(TagsOf(f))
      keys == {Key(r.recs[i].f) : i \in 1..Len(r.recs)}
      fromblock(x) == \E i \in 1..Len(r.recs) : r.recs[i].f = x.f /\ (r.loose = <<>> => r.recs[i].at = x.at)
      fromloose(x) == \E i \in 1..Len(r.loose) : PartOf(x.f, r.loose[i])
      loosekey(k) == \E i \in 1..Len(r.loose) : \E j \in 1..Len(r.loose[i]) : r.loose[i][j].t = "UT" /\ r.loose[i][j].v[1] = k
  IN {<<"reading: never raises", e.out = "ok">>,
      <<"reading: every intact record is returned", \A k \in keys : \E i \in 1..Len(g) : hasut(g[i].f) /\ Key(g[i].f) = k>>,
      <<"reading: once each", \A i, j \in 1..Len(g) : (i # j) => ~(hasut(g[i].f) /\ hasut(g[j].f) /\ Key(g[i].f) = Key(g[j].f))>>,
      <<"reading: with exactly the tags and lines of the file", \A i \in 1..Len(g) : fromblock(g[i]) \/ fromloose(g[i])>>,
      <<"reading: intact records keep their own content", \A i \in 1..Len(g) : (hasut(g[i].f) /\ Key(g[i].f) \in keys /\ ~loosekey(Key(g[i].f))) => fromblock(g[i])>>,
      <<"reading: source file", e.srcok>>,
      <<"reading: a damaged file is marked", r.damage => (e.bad \/ \E i \in 1..Len(e.recs) : e.recs[i].bad)>>,
      <<"reading: errors belong to the file", (e.bad <=> e.errs # <<>>) /\ \A i \in 1..Len(e.errs) : e.errs[i] = "F">>,
      <<"reading: a whole file is not marked", (~r.damage /\ ~r.blankend) => (~e.bad /\ Len(g) = Len(e.recs))>>,
      <<"reading: blank lines at the end damage no record", ~r.damage => Len(g) = Len(e.recs)>>}

WriteClauses(s, e) ==
  LET r == Read(SubSeq(e.lines, 3, Len(e.lines)), 2)
  IN {<<"writing: no error", e.out = "ok">>,
      <<"writing: header", Len(e.lines) > 2 /\ StartsWith(e.lines[1], "FN ") /\ Contains(e.lines[2], "VR 1.0")>>,
      <<"writing: a whole file", ~r.damage /\ ~r.blankend>>,
      <<"writing: exactly the records", SameRecs([i \in 1..Len(r.recs) |-> [f |-> r.recs[i].f]], s.recs) /\ Len(r.recs) = Len(s.recs)>>}

MyStep(s, e) ==
  CASE e.op = "read" -> [st |-> s, bad |-> Failing(IF s.k = "read" THEN ReadClauses(s.r, e)
                             ELSE {<<"reading back: no error", e.out = "ok" /\ ~e.bad>>,
                                   <<"reading back: the same records", SameRecs(e.recs, s.recs) /\ \A i \in 1..Len(e.recs) : ~e.recs[i].bad>>,
                                   <<"reading back: an equal collection", e.equal>>})]
    [] e.op = "write" -> [st |-> s, bad |-> Failing(WriteClauses(s, e))]
    [] e.op = "block" -> [st |-> s, bad |-> Failing({<<"a record as bytes or text", e.lines = WriteBlock(e.f)>>})]
    [] e.op = "bytes" -> LET r == Read(Append(e.lines, "EF"), 0)
                         IN [st |-> s, bad |-> Failing({<<"a collection as bytes", ~r.damage /\ ~r.blankend /\ Len(r.recs) = Len(s.recs) /\ SameRecs([i \in 1..Len(r.recs) |-> [f |-> r.recs[i].f]], s.recs)>>})]
    [] e.op = "kept" -> [st |-> s, bad |-> Failing({<<"writing leaves the collection as it was", SameRecs(e.recs, s.recs)>>})]
    [] e.op = "refuse" -> [st |-> s, bad |-> Failing({<<"a damaged record is refused", e.out = "exc:BadWOSRecord">>})]
=============================================================================
