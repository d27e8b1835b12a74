------------------------------- MODULE MKRecord -------------------------------
(***************************************************************************)
(* A record with memory: values are computed on first use and remembered,  *)
(* under the key asked for and under its other name.  A handle is one      *)
(* record object: [memo, spoiled], where spoiled are the keys whose        *)
(* remembered value the caller has changed in place.                       *)
(* The law: whatever was looked up before, a lookup gives View(key), and   *)
(* what happens to one object never reaches another.                       *)
(***************************************************************************)
EXTENDS MKCommon

CONSTANTS Keys, Other(_), ValueOf(_), Nothing, Design

Present(k) == ValueOf(k) # Nothing
Fresh == [memo |-> [k \in Keys |-> Nothing], bad |-> {}]
Remembered(o, k) == o.memo[k] # Nothing
\* looking up k in object o
Answer(o, k) == IF Remembered(o, k) THEN o.memo[k] ELSE ValueOf(k)
After(o, k) ==
  IF Remembered(o, k) \/ ~Present(k) THEN o
  ELSE [o EXCEPT !.memo = [x \in Keys |-> IF x = k \/ x = Other(k) THEN ValueOf(k) ELSE @[x]]]
\* the caller changes in place the value it got for k
Spoil(o, k) == [o EXCEPT !.memo = [x \in Keys |-> IF x = k \/ x = Other(k) THEN "spoiled" ELSE @[x]], !.bad = @ \cup {k, Other(k)}]
Copy(o) == IF Design = "own memory" THEN Fresh ELSE o
===============================================================================
