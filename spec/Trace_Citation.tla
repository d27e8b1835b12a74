---------------------------- MODULE Trace_Citation ----------------------------
EXTENDS MKTrace, MKCitation, MKCommon
(* A case holds the texts of some citations; the state is their parsed form.  *)
MyInit(case) == [w |-> [i \in 1..Len(case.texts) |-> ParseWOS(case.texts[i])],
                 s |-> case.parts, j9 |-> case.j9]

Same(obs, exp, names) == Failing({<<n, obs[n] = exp[n]>> : n \in names})

\* [name |-> abbreviation, full |-> names] pairs of the table in force
FullName(x, j) == LET I == {i \in 1..Len(x.j9) : x.j9[i][1] = j}
                  IN IF j = "" \/ I = {} THEN "" ELSE x.j9[CHOOSE i \in I : TRUE][2]

WosView(c) == [author |-> c.author, hasA |-> c.hasA, year |-> c.year, journal |-> c.journal, V |-> c.V, P |-> c.P, DOI |-> c.DOI,
               misc |-> c.misc, bad |-> c.bad, id |-> c.id, anon |-> c.anon, str |-> c.original,
               extra |-> ExtraOf(c), allbut |-> AllButDOI(c)]
Fields == {"author", "hasA", "year", "journal", "V", "P", "DOI", "misc", "bad", "id", "anon", "str", "extra", "allbut"}

MyStep(s, e) ==
  [st |-> s, bad |->
    CASE e.op = "fields" -> Same(e, WosView(s.w[e.i]), Fields)
      [] e.op = "eq" -> Failing({<<"equality", e.eq = SameWork(s.w[e.i], s.w[e.j])>>,
                                 <<"inequality", e.ne = ~SameWork(s.w[e.i], s.w[e.j])>>,
                                 <<"hash agrees with equality", e.hash = SameWork(s.w[e.i], s.w[e.j])>>})
      [] e.op = "fast" -> LET v == WosView(s.w[e.i]) IN
           Failing({<<"without texts: the identity", e.id = v.id /\ e.str = v.id>>, <<"without texts: as complete", e.bad = v.bad>>,
                    <<"without texts: all but the DOI", e.all = v.allbut>>, <<"without texts: equal", e.eq>>})
      [] e.op = "scopus" -> LET f == ScopusFields(s.s[e.i]) IN
            Same(e, f, {"author", "year", "journal", "V", "issue", "P", "bad", "id"})
            \cup Failing({<<"scopus: extra", e.extra = ScopusExtra(f)>>, <<"scopus: text", e.str = e.text>>, <<"scopus: has an author", ~e.anon>>,
                          <<"scopus: all but the DOI", StartsWith(e.allbut, f.id) /\ \A v \in {f.V, f.issue, f.P} : v = "" \/ FindFrom(e.allbut, v, Len(f.id) + 1) > 0>>})
      [] e.op = "scopuseq" -> LET same == ScopusFields(s.s[e.i]).id = ScopusFields(s.s[e.j]).id IN
            Failing({<<"scopus: equality", e.eq = same>>, <<"scopus: inequality", e.ne = ~same>>, <<"scopus: hash agrees with equality", e.hash = same>>})
      [] e.op = "scopusjournal" -> LET f == FullName(s, ScopusFields(s.s[e.i]).journal) IN
            Failing({<<"scopus: journal known", e.known = (f # "")>>, <<"scopus: full journal name", e.full = f>>})
      [] e.op = "badscopus" -> Failing({<<"unparsable scopus citation is bad", e.bad>>, <<"unparsable citation keeps its text", e.id = e.text>>,
                                        <<"unparsable citation prints its text", e.str = e.text>>,
                                        <<"unparsable citation has no author", e.anon>>, <<"unparsable citation has nothing extra", e.extra = "">>,
                                        <<"unparsable citation is all text", e.allbut = e.text>>, <<"unparsable citation is in no journal", ~e.known>>})
      [] e.op = "journal" -> Failing({<<"journal known", e.known = (FullName(s, s.w[e.i].journal) # "")>>,
                                      <<"full journal name", e.full = FullName(s, s.w[e.i].journal)>>})
      [] e.op = "filter" -> \* indices of the citations kept, in order
            Failing({<<"journals kept", e.kept = SelectSeq([i \in 1..Len(s.w) |-> i], LAMBDA i : (FullName(s, s.w[i].journal) # "") # e.invert)>>})
      [] e.op = "dedup" -> Failing({<<"set of citations", e.n = Cardinality({s.w[i].id : i \in 1..Len(s.w)})>>})]
=============================================================================
