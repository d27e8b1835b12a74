------------------------------ MODULE MKAnalyses ------------------------------
(***************************************************************************)
(* Analyses over a collection.  The collection stores values and remembers *)
(* what it decoded; an analysis reads some of the fields, and hands out a  *)
(* result that the caller may change; the caller also has the list of      *)
(* arguments, and a setting for the display.  The law: a result depends on *)
(* the analysis and on what was stored at first, and on nothing else.      *)
(***************************************************************************)
EXTENDS MKCommon

CONSTANTS Fields, Reads(_), Nothing, Design

Decode(s, f) == <<"decoded", s[f]>>
\* what the collection says of field f
Says(w, f) == IF w.memo[f] # Nothing THEN w.memo[f] ELSE Decode(w.store, f)
Remember(w, fs) == [w EXCEPT !.memo = [f \in Fields |-> IF f \in fs THEN Says(w, f) ELSE @[f]]]
\* the result of analysis a
ResultOf(w, a) == [f \in Reads(a) \cap w.args |-> Says(w, f)]
RightResult(store, args, a) == [f \in Reads(a) \cap args |-> Decode(store, f)]
Run(w, a) ==
  LET r == Remember(w, Reads(a))
  IN CASE Design = "uses the arguments up" -> [r EXCEPT !.args = @ \ Reads(a)]
       [] Design = "uses what it reads up" -> [r EXCEPT !.memo = [f \in Fields |-> IF f \in Reads(a) THEN <<"empty", 0>> ELSE @[f]]]
       [] Design = "display costs a field" -> IF w.shown THEN [r EXCEPT !.store = [f \in Fields |-> IF f \in Reads(a) THEN 0 ELSE @[f]], !.memo = [f \in Fields |-> Nothing]] ELSE r
       [] OTHER -> r
\* the caller changes the result of analysis a
Change(w, a) == IF Design = "hands out what it remembers"
                THEN [w EXCEPT !.memo = [f \in Fields |-> IF f \in Reads(a) /\ @[f] # Nothing THEN <<"changed", 0>> ELSE @[f]]]
                ELSE w
Show(w, on) == [w EXCEPT !.shown = on]

\* ---- the law, of what was seen: said is a function from analyses to what they gave first
Agrees(said, a, d) == a \notin DOMAIN said \/ said[a] = d
Learn(said, a, d) == IF a \in DOMAIN said THEN said ELSE [x \in DOMAIN said \cup {a} |-> IF x = a THEN d ELSE said[x]]
===============================================================================
