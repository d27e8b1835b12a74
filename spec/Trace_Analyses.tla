--------------------------- MODULE Trace_Analyses ---------------------------
(* What analyses gave (digests of their results), alone on collections made  *)
(* anew and one after the other on one collection.                           *)
EXTENDS MKTrace
A == INSTANCE MKAnalyses WITH Fields <- {}, Reads <- LAMBDA x : {}, Nothing <- "", Design <- "pure"
\* state: said, by analysis; stored, the digest of what is stored; shown, the display
MyInit(c) == [said |-> [x \in {} |-> ""], stored |-> c.stored, shown |-> FALSE]
MyStep(s, e) ==
  CASE e.op = "alone" -> [st |-> [s EXCEPT !.said = A!Learn(@, e.key, e.got)], bad |-> {}]
    [] e.op = "show" -> [st |-> [s EXCEPT !.shown = e.on], bad |-> {}]
    [] e.op = "run" ->
         [st |-> [s EXCEPT !.said = A!Learn(@, e.key, e.got)],
          bad |-> Failing({<<IF s.shown THEN "same result with the display on" ELSE "same result whatever was done before", A!Agrees(s.said, e.key, e.got)>>,
                           <<"arguments are left as they were", e.args>>,
                           <<"collections and records are left as they were", e.stored = s.stored>>})]
    \* results are the caller's
    [] e.op = "change" -> [st |-> s, bad |-> Failing({<<"changing a result does not change the records", e.stored = s.stored>>})]
    [] e.op = "look" -> [st |-> s, bad |-> Failing({<<"decoded values are left as they were", A!Agrees(s.said, "decoded", e.got)>>})]
===============================================================================
