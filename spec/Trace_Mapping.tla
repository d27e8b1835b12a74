------------------------------ MODULE Trace_Mapping ------------------------------
EXTENDS MKTrace, MKCommon, MKMapping
(* case.kinds: the kind of every grant; case.maps: the pairs it starts with.   *)
(* The state: the kinds and the mappings.  After every event e.views are the   *)
(* pairs of all of them as their iteration gives them, e.keep says that length, *)
(* membership and identities agree.                                            *)
Start(q) == SeqRange(q)
MyInit(case) == [kinds |-> case.kinds, maps |-> [i \in 1..Len(case.maps) |-> Start(case.maps[i])]]
Update(kind, x, y) == IF kind = "NSERC" THEN Fill(x, y) ELSE Over(x, y)
After(s, e) ==
  LET m == IF e.i = 0 THEN {} ELSE s.maps[e.i] IN
  CASE e.op = "put" -> [s EXCEPT !.maps[e.i] = IF e.text THEN Put(@, e.k, e.v) ELSE @]
    [] e.op = "default" -> [s EXCEPT !.maps[e.i] = IF e.k \in Keys(m) THEN @ ELSE Put(@, e.k, e.v)]
    [] e.op \in {"del", "pop", "popd"} -> [s EXCEPT !.maps[e.i] = Del(@, e.k)]
    [] e.op = "update" -> [s EXCEPT !.maps[e.i] = Update(s.kinds[e.i], @, s.maps[e.j])]
    [] e.op = "clear" -> [s EXCEPT !.maps[e.i] = {}]
    [] e.op = "copy" -> [kinds |-> Append(s.kinds, s.kinds[e.i]), maps |-> Append(s.maps, m)]
    [] OTHER -> s
Answer(s, e) ==
  LET m == s.maps[e.i]  in == e.k \in Keys(m) IN
  CASE e.op = "put" -> e.out = IF e.text THEN "ok" ELSE "exc:KeyError"
    [] e.op \in {"del", "get", "pop"} -> e.out = (IF in THEN "ok" ELSE "exc:KeyError") /\ (e.op # "del" /\ in => e.got = Val(m, e.k))
    [] e.op \in {"popd", "getd"} -> e.out = "ok" /\ e.got = IF in THEN Val(m, e.k) ELSE "!none"
    [] e.op = "default" -> e.out = "ok" /\ e.got = IF in THEN Val(m, e.k) ELSE e.v
    [] OTHER -> e.out = "ok"
MyStep(s, e) ==
  LET t == After(s, e) IN
  [st |-> t,
   bad |-> Failing({<<"mapping: " \o e.op, Answer(s, e)>>,
                    <<"mapping: contents after " \o e.op, /\ Len(e.views) = Len(t.maps)
                                                       /\ \A i \in 1..Len(t.maps) : SeqRange(e.views[i]) = t.maps[i]>>,
                    <<"mapping: one value per key", \A i \in 1..Len(e.views) : NoDups([j \in 1..Len(e.views[i]) |-> e.views[i][j][1]])>>,
                    <<"mapping: length, membership and identity", e.keep>>})]
=============================================================================
