------------------------------ MODULE Trace_Cache ------------------------------
EXTENDS MKTrace, MKDirectory
(* case.table: what each content (by stamp) holds: [s, kind, keys, err]; the     *)
(* state is the directory, name -> stamp, as a set of [name, s].  Events edit    *)
(* it ("write", "remove", "rename"), change the cache ("corrupt", "crash": no    *)
(* effect that may be observed), or read: "read" holds a reading with the cache  *)
(* and, right after it, one without.                                             *)
MyInit(case) == [t |-> SeqRange(case.table), d |-> {}]
Content(t, s) == CHOOSE x \in t : x.s = s
Keep(x) == [recs |-> SeqRange(x.recs), errs |-> SeqRange(x.errs), bad |-> x.bad, types |-> SeqRange(x.types)]
FileSet(q) == {LET x == Content(q.t, f.s) IN [name |-> f.name, kind |-> x.kind, recs |-> {[k |-> y, c |-> f.name] : y \in SeqRange(x.keys)}, err |-> x.err] : f \in q.d}
MyStep(q, e) ==
  CASE e.op = "write" -> [st |-> [q EXCEPT !.d = {f \in @ : f.name # e.name} \cup {[name |-> e.name, s |-> e.s]}], bad |-> {}]
    [] e.op = "remove" -> [st |-> [q EXCEPT !.d = {f \in @ : f.name # e.name}], bad |-> {}]
    [] e.op = "rename" -> [st |-> [q EXCEPT !.d = {f \in @ : f.name \notin {e.name, e.to}} \cup {[name |-> e.to, s |-> f.s] : f \in {g \in @ : g.name = e.name}}], bad |-> {}]
    [] e.op \in {"corrupt", "crash", "race"} -> [st |-> q, bad |-> {}]
    [] e.op = "read" ->
       LET c == e.cached p == e.plain F == FileSet(q) r == Result(F, e.ext)
       IN [st |-> q, bad |-> Failing(
            {<<"the cache does not change whether reading raises", c.out = p.out>>,
             <<"files as they were", e.untouched>>}
            \cup IF Stops(F, e.ext) THEN {<<"an unrecognised file with the extension raises", c.out = "exc:BadInputFile">>}
                 ELSE {<<"reading with the cache raises nothing", c.out = "ok">>,
                       <<"the records that the files hold now", Keys(SeqRange(c.recs)) = Keys(r.recs) /\ Len(c.recs) = Cardinality(Keys(r.recs))>>,
                       <<"the errors of the files as they are now", SeqRange(c.errs) = r.errs /\ c.bad = r.bad>>,
                       <<"exactly what reading without the cache gives", Keep(c) = Keep(p)>>,
                       <<"the name asked for", c.name = p.name>>,
                       <<"records as usable as freshly read ones", SeqRange(c.deep) = SeqRange(p.deep)>>,
                       <<"networks of them as of freshly read ones", c.net = p.net>>,
                       <<"an equal collection", c.out = "ok" /\ p.out = "ok" => e.equal>>,
                       <<"records of both are found in either", e.mutual>>})]
=============================================================================
