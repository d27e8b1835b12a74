---------------------------- MODULE Trace_Journals ----------------------------
(* State: w, m, whether the manual database is there, the session d, and the      *)
(* listing that is on the network.                                                 *)
EXTENDS MKTrace, MKCommon
JN == INSTANCE MKJournals
MyInit(c) == [w |-> JN!Nil, m |-> JN!Nil, there |-> FALSE, on |-> FALSE, d |-> JN!Nil, pages |-> <<>>, online |-> TRUE]
Dict(pairs) == [a \in {pairs[i][1] : i \in 1..Len(pairs)} |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = a][2]]
Same(pairs, f) == Len(pairs) = Cardinality(DOMAIN f) /\ Dict(pairs) = f
Put(s, pairs) == [s EXCEPT !.m = JN!PutAll(@, pairs), !.there = TRUE]
Is(s, bad) == [st |-> s, bad |-> bad]
\* the listing is fetched when it is wanted and there is none
Fetched(s) == IF s.w = JN!Nil /\ s.online THEN [s EXCEPT !.w = JN!Listing(@, s.pages)] ELSE s
NoListing(s) == s.w = JN!Nil /\ ~s.online
Loaded(s) == IF s.on THEN s ELSE LET t == Fetched(s) IN IF NoListing(s) THEN s ELSE [t EXCEPT !.on = TRUE, !.d = JN!Both(t.w, t.m)]
Cached(s, a, v) == IF s.on THEN [s EXCEPT !.d = JN!PutAll(@, <<<<a, v>>>>)] ELSE s
MyStep(s, e) ==
  CASE e.op = "serve" -> Is([s EXCEPT !.pages = e.pages, !.online = e.online], {})
    [] e.op = "put" -> Is(Put(s, e.pairs), Failing({<<"adding or excluding works", e.out = "ok">>}))
    [] e.op = "wrong" -> Is([s EXCEPT !.there = TRUE], Failing({<<"anything else is refused", e.out = "TypeError">>}))
    [] e.op = "update" -> IF s.online THEN Is([s EXCEPT !.w = JN!Listing(@, s.pages)], Failing({<<"updating works", e.out = "ok">>}))
                          ELSE Is(s, Failing({<<"updating without a connection is an error", e.out = "URLError">>}))
    [] e.op = "get" ->
         LET t == IF e.which = "manual" THEN s ELSE Fetched(s)
             f == CASE e.which = "both" -> JN!Both(t.w, t.m) [] e.which = "WOS" -> t.w [] OTHER -> t.m
         IN IF e.which # "manual" /\ NoListing(s) THEN Is(s, Failing({<<"no listing and no connection is an error", e.out = "URLError">>}))
            ELSE IF e.which = "manual" /\ ~s.there THEN Is(s, Failing({<<"a missing manual database is an error", e.out = "JournalDataBaseError">>}))
            ELSE Is(t, Failing({<<"the lookup works", e.out = "ok">>, <<"exactly the names stored", e.out = "ok" => Same(e.dict, f)>>}))
    [] e.op = "reopen" -> Is([s EXCEPT !.on = FALSE, !.d = JN!Nil], {})
    [] e.op = "cite" ->
         LET t == Loaded(s)
         IN IF ~t.on THEN Is(s, Failing({<<"no listing and no connection is an error", e.out = "URLError">>}))
            ELSE Is(t, Failing({<<"a citation can be resolved", e.out = "ok">>,
                 <<"citations of journals", e.out = "ok" => e.isj = (e.has /\ JN!IsJournal(t.d, e.a))>>,
                 <<"citations of excluded journals", e.out = "ok" => e.exc = (e.has /\ JN!IsExcluded(t.d, e.a))>>,
                 <<"full names of journals", e.out = "ok" => e.full = (IF e.has THEN JN!FullName(t.d, e.a) ELSE JN!NoName)>>}))
    [] e.op = "citeadd" -> IF ~e.has THEN Is(s, Failing({<<"a citation without journal is refused", e.out = "KeyError">>}))
                           ELSE Is(Cached(Put(s, <<<<e.a, e.v>>>>), e.a, e.v), Failing({<<"adding by citation works", e.out = "ok">>}))
    [] e.op = "filter" -> Is(s, Failing({<<"filtering by journal", e.kept = SelectSeq([i \in 1..Len(e.abbr) |-> i],
                                LAMBDA i : (e.abbr[i] # "" /\ JN!IsJournal(s.d, e.abbr[i])) # e.invert)>>}))
===============================================================================
