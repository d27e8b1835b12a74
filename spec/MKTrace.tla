------------------------------- MODULE MKTrace -------------------------------
(***************************************************************************)
(* Trace validation skeleton shared by every Trace_*.tla module.           *)
(*                                                                         *)
(* The driver records what the real code did as a list of cases; a case is *)
(* [id, kind, ev] where ev is the sequence of recorded events.  Every case *)
(* is one initial state, and each step of the specification consumes one   *)
(* event by applying InitSt/StepOf, which the subsystem's trace module     *)
(* supplies by reusing the actions and closed forms of the subsystem's     *)
(* specification.  StepOf returns [st |-> next abstract state,             *)
(* bad |-> the set of clauses of the property the event violates], so the  *)
(* verdict is total and names the clause.  The run counts as complete only *)
(* when every event of every case was consumed (distinct states =          *)
(* sum of (Len(ev)+1), checked by the framework).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt(_), StepOf(_, _)

Cases == JsonDeserialize(IOEnv.MBV_CASES)

VARIABLES ci, l, st
tvars == <<ci, l, st>>

TraceInit == /\ ci \in 1..Len(Cases)
             /\ l = 1
             /\ st = InitSt(Cases[ci])

\* an event the driver writes when the real code raised where no outcome was
\* foreseen, or did not return within the case's time limit
Crashed(e) == e.op = "CRASH"

TraceNext ==
    /\ l <= Len(Cases[ci].ev)
    /\ LET e == Cases[ci].ev[l]
           r == IF Crashed(e) THEN [st |-> st, bad |-> {"raised:" \o e.exc}]
                ELSE StepOf(st, e)
       IN  /\ \A c \in r.bad : PrintT("VERDICT " \o ToString(ci) \o " " \o ToString(l) \o " " \o c)
           /\ st' = r.st
    /\ l' = l + 1
    /\ UNCHANGED ci

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* the clauses (pairs <<name, condition>>) that fail
Failing(clauses) == {p[1] : p \in {q \in clauses : ~q[2]}}
=============================================================================
