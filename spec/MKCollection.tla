---------------------------- MODULE MKCollection ----------------------------
(***************************************************************************)
(* Collections of records (RecordCollection, GrantCollection).             *)
(*                                                                         *)
(* An element is [k |-> identity, id |-> ID, bad |-> BOOLEAN]: two good    *)
(* records are the same element iff their IDs agree, two damaged ones iff  *)
(* their content agrees, so the driver uses the ID (resp. the content) as  *)
(* k.  A collection is [els, bad, errs]: a set of elements, the "something *)
(* went wrong" flag and the errors reported per source (a set of           *)
(* <<source, error>> pairs, functional in source).                         *)
(***************************************************************************)
EXTENDS MKCommon

Col(els, bad, errs) == [els |-> els, bad |-> bad, errs |-> errs]
EmptyCol == Col({}, FALSE, {})

\* dict update: the right operand wins
Upd(a, b) == {p \in a : \A q \in b : q[1] # p[1]} \cup b

SetOp(op, A, B) == CASE op = "or"  -> A \cup B
                     [] op = "and" -> A \cap B
                     [] op = "sub" -> A \ B
                     [] op = "xor" -> (A \ B) \cup (B \ A)

\* a <op> b : a new collection; trouble in either operand is carried over
Binary(op, a, b) ==
    Col(SetOp(op, a.els, b.els), a.bad \/ b.bad,
        IF a.bad \/ b.bad THEN Upd(a.errs, b.errs) ELSE {})

\* a <op>= b
InPlace(op, a, b) ==
    Col(SetOp(op, a.els, b.els), a.bad \/ b.bad,
        IF a.bad \/ b.bad THEN Upd(a.errs, b.errs) ELSE a.errs)

FromIterable(S) == Col(S, FALSE, {})
Plus(a, b)      == FromIterable(a.els \cup b.els)

Add(a, e)       == [a EXCEPT !.els = @ \cup {e}]
Remove(a, e)    == [a EXCEPT !.els = @ \ {e}]
Clear(a)        == EmptyCol
WithID(a, id)   == {e \in a.els : e.id = id}
HasID(a, id)    == WithID(a, id) # {}

\* dropping / extracting the damaged records
DropBad(a)      == Col({e \in a.els : ~e.bad}, FALSE, {})
BadOnly(a)      == FromIterable({e \in a.els : e.bad})

(* The laws a user relies on; checked over every reachable pair in MC_Collection *)
LawsHold(a, b) ==
    /\ Binary("or", a, b).els = Binary("or", b, a).els
    /\ Binary("and", a, b).els = Binary("and", b, a).els
    /\ Binary("xor", a, b).els = Binary("sub", Binary("or", a, b), Binary("and", a, b)).els
    /\ Binary("or", Binary("sub", a, b), Binary("and", a, b)).els = a.els
    /\ Binary("sub", a, a).els = {}
    /\ \A op \in {"or", "and", "sub", "xor"} :
          /\ InPlace(op, a, b).els = Binary(op, a, b).els
          /\ InPlace(op, a, b).bad = Binary(op, a, b).bad
          /\ (a.bad \/ b.bad) => /\ {p[1] : p \in a.errs \cup b.errs} = {p[1] : p \in Binary(op, a, b).errs}
                                 /\ InPlace(op, a, b).errs = Binary(op, a, b).errs
    /\ DropBad(a).els \cap BadOnly(a).els = {}
    /\ DropBad(a).els \cup BadOnly(a).els = a.els
=============================================================================
