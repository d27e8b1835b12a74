------------------------------ MODULE MKDirectory ------------------------------
(***************************************************************************)
(* A directory of files and what reading it gives.  A file is               *)
(* [name, kind, recs, err]: the kind of its reader ("" when no reader        *)
(* recognises it), the set of records [k, c] that reading it alone gives      *)
(* (identity and content), whether it reports an error.                      *)
(***************************************************************************)
EXTENDS MKCommon, MKText, TLC

Keys(R) == {x.k : x \in R}
Selected(F, ext) == {f \in F : EndsWith(f.name, ext)}
Known(F) == {f \in F : f.kind # ""}
Stops(F, ext) == ext # "" /\ \E f \in Selected(F, ext) : f.kind = ""
Result(F, ext) == LET S == Known(Selected(F, ext))
                  IN [recs |-> UNION {f.recs : f \in S}, errs |-> {f.name : f \in {g \in S : g.err}},
                      bad |-> \E f \in S : f.err, types |-> {f.kind : f \in S}]

\* one file after another; a failed reading stays failed
Start0 == [recs |-> {}, errs |-> {}, bad |-> FALSE, types |-> {}, failed |-> FALSE]
ReadOne(q, f, ext) ==
  IF q.failed \/ ~EndsWith(f.name, ext) THEN q
  ELSE IF f.kind = "" THEN [q EXCEPT !.failed = (ext # "")]
  ELSE [recs |-> q.recs \cup {x \in f.recs : x.k \notin Keys(q.recs)}, errs |-> IF f.err THEN q.errs \cup {f.name} ELSE q.errs,
        bad |-> q.bad \/ f.err, types |-> q.types \cup {f.kind}, failed |-> FALSE]
\* what one may observe: one record of every identity, each of them as a file gives it
Agrees(q, F, ext) == LET r == Result(F, ext) IN
   /\ q.errs = r.errs /\ q.bad = r.bad /\ q.types = r.types
   /\ Keys(q.recs) = Keys(r.recs) /\ Cardinality(q.recs) = Cardinality(Keys(r.recs)) /\ q.recs \subseteq r.recs
=============================================================================
