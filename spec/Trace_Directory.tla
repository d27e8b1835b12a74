---------------------------- MODULE Trace_Directory ----------------------------
EXTENDS MKTrace, MKDirectory
(* Events: "alone" a file read by itself, "single" a file read with an          *)
(* extension asked for, "dir" the directory.                                    *)
MyInit(case) == {}
\* a collection is called what was asked for, and one that was read always something
Named(e) == e.out = "ok" => ((e.called # "" \/ e.op = "again") /\ (e.asked # "" => e.called = e.asked))
Obs(e) == [recs |-> SeqRange(e.recs), errs |-> SeqRange(e.errs), bad |-> e.bad, types |-> SeqRange(e.types)]
MyStep(F, e) ==
  CASE e.op = "alone" ->
         [st |-> F \cup {[name |-> e.name, kind |-> e.kind, recs |-> SeqRange(e.recs), err |-> e.errs # <<>>]},
          bad |-> Failing(
            IF e.kind = "" THEN {<<"an unrecognised file raises", e.out = "exc:BadInputFile">>}
            ELSE {<<"a file of a known source is read", e.out = "ok">>,
                  <<"under the name asked for", Named(e)>>,
                  <<"each file goes to the reader of its source", SeqRange(e.types) = {e.kind}>>,
                  <<"its records", (~e.damaged) => Keys(SeqRange(e.recs)) = SeqRange(e.ids)>>,
                  <<"each once", Len(e.recs) = Cardinality(Keys(SeqRange(e.recs)))>>,
                  <<"no error in a whole file", (~e.damaged) => ~e.bad>>,
                  <<"bad exactly with an error, of that file", (e.bad <=> e.errs # <<>>) /\ SeqRange(e.errs) \subseteq {e.name}>>})]
    [] e.op = "bytes" ->         \* a file that is not text throughout
         [st |-> F, bad |-> Failing(
            {<<"bytes that are no text are reported", e.out = "exc:BadInputFile" \/ (e.out = "ok" /\ e.bad /\ SeqRange(e.errs) = {e.name})>>,
             <<"and no record is made up", e.out = "ok" => Keys({x \in SeqRange(e.recs) : StartsWith(x.k, "id:")}) \subseteq Keys(SeqRange(e.whole))>>,
             <<"each once", Len(e.recs) = Cardinality(Keys(SeqRange(e.recs)))>>})]
    [] e.op = "single" ->
         [st |-> F, bad |-> Failing(
            IF EndsWith(e.name, e.ext) THEN {<<"a file with the extension is read", \A f \in F : f.name = e.name => (f.kind # "" <=> e.out = "ok")>>}
            ELSE {<<"a file without the extension raises", e.out # "ok">>})]
    [] e.op = "again" ->          \* a collection of the records another one holds
         [st |-> F, bad |-> Failing(
            {<<"records make a collection", e.out = "ok">>,
             <<"under the name asked for", Named(e)>>,
             <<"of the records given", \E f \in F : f.name = e.name /\ SeqRange(e.recs) = f.recs /\ Len(e.recs) = Cardinality(f.recs)>>})]
    [] e.op = "dir" ->
         [st |-> F, bad |-> Failing(
            {<<"reading does not touch the directory", e.untouched>>, <<"under the name asked for", Named(e)>>}
            \cup IF Stops(F, e.ext) THEN {<<"an unrecognised file with the extension raises", e.out = "exc:BadInputFile">>}
                 ELSE LET o == Obs(e) r == Result(F, e.ext) IN
                      {<<"a directory is read", e.out = "ok">>,
                       <<"the union of the records", Keys(o.recs) = Keys(r.recs)>>,
                       <<"each once", Len(e.recs) = Cardinality(Keys(r.recs))>>,
                       <<"each as its file gives it", o.recs \subseteq r.recs>>,
                       <<"the errors of the files", o.errs = r.errs>>,
                       <<"bad exactly with an error", o.bad = r.bad>>,
                       <<"the kinds of the files", o.types = r.types>>})]
=============================================================================
