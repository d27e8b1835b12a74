--------------------------- MODULE Trace_Collection ---------------------------
(* Replayed histories of collection operations: every event carries the      *)
(* operation, its outcome and the projected content of all handles after it. *)
EXTENDS MKTrace, MKCollection

ColOf(p) == Col(SeqRange(p.els), p.bad, SeqRange(p.errs))
StateOf(post) == [h \in DOMAIN post |-> ColOf(post[h])]

MyInit(case) == StateOf(case.pre)

El(e) == e.elem
\* the expected next states (a set: pop and ID removal may pick any match) and outcomes
Expected(s, e) ==
  CASE e.op = "new"  -> {<<[s EXCEPT ![e.h] = FromIterable(SeqRange(e.elems))], "ok">>}
    [] e.op = "mark" -> {<<[s EXCEPT ![e.h] = Col(@.els, TRUE, Upd(@.errs, SeqRange(e.errs)))], "ok">>}
    [] e.op = "add"  -> {<<[s EXCEPT ![e.h] = Add(@, El(e))], "ok">>}
    [] e.op = "addbad" -> {<<s, "exc:CollectionTypeError">>}
    [] e.op = "discard" -> {<<[s EXCEPT ![e.h] = Remove(@, El(e))], "ok">>}
    [] e.op = "remove" -> IF El(e) \in s[e.h].els THEN {<<[s EXCEPT ![e.h] = Remove(@, El(e))], "ok">>}
                          ELSE {<<s, "exc:KeyError">>}
    [] e.op = "pop" -> IF s[e.h].els = {} THEN {<<s, "exc:KeyError">>}
                       ELSE {<<[s EXCEPT ![e.h] = Remove(@, x)], "el:" \o x.k>> : x \in s[e.h].els}
    [] e.op = "clear" -> {<<[s EXCEPT ![e.h] = EmptyCol], "ok">>}
    [] e.op \in {"or", "and", "sub", "xor"} -> {<<[s EXCEPT ![e.d] = Binary(e.op, s[e.h], s[e.g])], "ok">>}
    [] e.op = "ior"  -> {<<[s EXCEPT ![e.h] = InPlace("or", s[e.h], s[e.g])], "ok">>}
    [] e.op = "iand" -> {<<[s EXCEPT ![e.h] = InPlace("and", s[e.h], s[e.g])], "ok">>}
    [] e.op = "isub" -> {<<[s EXCEPT ![e.h] = InPlace("sub", s[e.h], s[e.g])], "ok">>}
    [] e.op = "ixor" -> {<<[s EXCEPT ![e.h] = InPlace("xor", s[e.h], s[e.g])], "ok">>}
    [] e.op = "plus" -> {<<[s EXCEPT ![e.d] = Plus(s[e.h], s[e.g])], "ok">>}
    [] e.op = "copy" -> {<<[s EXCEPT ![e.d] = s[e.h]], "ok">>}
    [] e.op = "discardID" -> IF HasID(s[e.h], e.id) THEN {<<[s EXCEPT ![e.h] = Remove(@, x)], "ok">> : x \in WithID(s[e.h], e.id)}
                             ELSE {<<s, "ok">>}
    [] e.op = "removeID" -> IF HasID(s[e.h], e.id) THEN {<<[s EXCEPT ![e.h] = Remove(@, x)], "ok">> : x \in WithID(s[e.h], e.id)}
                            ELSE {<<s, "exc:KeyError">>}
    [] e.op = "look" -> {<<s, "ok">>}
    [] e.op = "cmp" -> {<<s, "ok">>}
    [] e.op = "dropbad" -> {<<[s EXCEPT ![e.h] = DropBad(@)], "ok">>}
    [] e.op = "badentries" -> {<<[s EXCEPT ![e.d] = BadOnly(s[e.h])], "ok">>}
    [] e.op = "cross" -> {<<s, e.out>>}   \* whatever it does, the operands stay as they are

\* what the read-only operations must report
LookOK(s, e) == /\ e.has = HasID(s[e.h], e.id)
                /\ IF HasID(s[e.h], e.id) THEN \E x \in WithID(s[e.h], e.id) : e.got = "el:" \o x.k ELSE e.got = "none"
                /\ e.len = Cardinality(s[e.h].els)
                /\ \A i \in 1..Len(e.members) : e.members[i].in = (e.members[i].elem \in s[e.h].els)
CmpOK(s, e) == /\ e.eq = (s[e.h].els = s[e.g].els)
               /\ e.ne = (s[e.h].els # s[e.g].els)
               /\ (e.eq => e.samehash)

MyStep(s, e) ==
  LET obs == StateOf(e.post)
      exp == Expected(s, e)
      match == {p \in exp : p[1] = obs /\ p[2] = e.out}
      \* after a mismatch go on from what the specification says
      nxt == IF match # {} THEN obs ELSE (CHOOSE p \in exp : TRUE)[1]
  IN [st |-> nxt,
      bad |-> Failing({<<e.op \o ": outcome", \E p \in exp : p[2] = e.out>>,
                       <<e.op \o ": elements", \E p \in exp : \A h \in DOMAIN s : p[1][h].els = obs[h].els>>,
                       <<e.op \o ": bad flag and errors", \E p \in exp : \A h \in DOMAIN s : p[1][h].bad = obs[h].bad /\ p[1][h].errs = obs[h].errs>>,
                       <<e.op \o ": explained", match # {}>>,
                       <<e.op \o ": each element once", \A h \in DOMAIN s : NoDups(e.post[h].els)>>,
                       <<"lookup", e.op = "look" => LookOK(s, e)>>,
                       <<"comparison", e.op = "cmp" => CmpOK(s, e)>>})]
=============================================================================
