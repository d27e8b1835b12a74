----------------------------- MODULE MC_Analyses -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Design, MaxHist, MaxSteps
Fields == {"x", "y", "z"}
Analyses == {"a", "b", "c"}
Reads(a) == CASE a = "a" -> {"x"} [] a = "b" -> {"x", "y"} [] OTHER -> {"y", "z"}
A == INSTANCE MKAnalyses WITH Nothing <- <<"nothing", 0>>
VARIABLES w, last, given, said, hist, n, done
vars == <<w, last, given, said, hist, n, done>>
Store0 == [f \in Fields |-> CASE f = "x" -> 1 [] f = "y" -> 2 [] OTHER -> 3]
Init == /\ w = [store |-> Store0, memo |-> [f \in Fields |-> <<"nothing", 0>>], args |-> Fields, shown |-> FALSE]
        /\ last = [a |-> "none", r |-> <<>>] /\ given = {} /\ said = <<>> /\ hist = <<>> /\ n = 0 /\ done = FALSE
Note(x) == hist' = IF MaxHist = 0 THEN hist ELSE Append(hist, x)
Go == ~done /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED done
Run(a) == /\ last' = [a |-> a, r |-> A!ResultOf(w, a)]
          /\ said' = A!Learn(said, a, A!ResultOf(w, a))
          /\ w' = A!Run(w, a) /\ given' = given \cup {a} /\ Note([op |-> "run", a |-> a])
Change(a) == a \in given /\ w' = A!Change(w, a) /\ UNCHANGED <<last, given, said>> /\ Note([op |-> "change", a |-> a])
Show == w' = A!Show(w, ~w.shown) /\ UNCHANGED <<last, given, said>> /\ Note([op |-> "show", a |-> "none"])
\* in histories only: decoded values are looked at
Look == MaxHist > 0 /\ UNCHANGED <<w, last, given, said>> /\ Note([op |-> "look", a |-> "none"])
Next == \/ Go /\ (Show \/ Look \/ \E a \in Analyses : Run(a) \/ Change(a))
        \/ MaxHist > 0 /\ n = MaxSteps /\ ~done /\ done' = TRUE /\ UNCHANGED <<w, last, given, said, hist, n>>
Spec == Init /\ [][Next]_vars
EmitHist == done => PrintT("H " \o ToJson(hist))
Right == last.a # "none" => last.r = A!RightResult(Store0, Fields, last.a)
Untouched == w.store = Store0 /\ w.args = Fields /\ \A f \in Fields : A!Says(w, f) = <<"decoded", Store0[f]>>
\* what the trace specification relies on: no result ever differs from the first of its analysis
Repeatable == last.a # "none" => A!Agrees(said, last.a, last.r)
===============================================================================
