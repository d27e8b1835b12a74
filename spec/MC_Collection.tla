---------------------------- MODULE MC_Collection ----------------------------
(***************************************************************************)
(* State machine over a few handles; every operation is an action.  Used   *)
(* (a) exhaustively for the invariants and frame property, printing every  *)
(* transition so that the driver can replay each one against the code, and *)
(* (b) with -simulate for long histories.                                  *)
(***************************************************************************)
EXTENDS MKCollection, TLC, Json
CONSTANTS H, Elems, Errs, MaxLen

E(k) == CASE k = "a" -> [k |-> "a", id |-> "a", bad |-> FALSE]
          [] k = "b" -> [k |-> "b", id |-> "b", bad |-> FALSE]
          [] k = "c" -> [k |-> "c", id |-> "c", bad |-> FALSE]
          \* two damaged records share the "missing" ID but differ in content
          [] k = "x" -> [k |-> "x", id |-> "none", bad |-> TRUE]
          [] k = "y" -> [k |-> "y", id |-> "none", bad |-> TRUE]
Ids == {"a", "b", "c", "none", "zz"}
Els == {E(k) : k \in Elems}
ErrP(f) == CASE f = "f1" -> {<<"f1", "m1">>} [] f = "f2" -> {<<"f1", "m2">>} [] f = "f3" -> {<<"f3", "m1">>}

VARIABLES c, op, hist
vars == <<c, op, hist>>
None == [op |-> "init"]

Init == c = [h \in H |-> EmptyCol] /\ op = None /\ hist = <<>>

Do(o, newc) == /\ c' = newc
               /\ op' = o
               /\ hist' = IF MaxLen = 0 THEN hist ELSE Append(hist, o)

NewFrom == \E h \in H, S \in SUBSET Els :
             Do([op |-> "new", h |-> h, keys |-> {e.k : e \in S}], [c EXCEPT ![h] = FromIterable(S)])
Mark == \E h \in H, f \in Errs : \* loading a source that reported a problem
             Do([op |-> "mark", h |-> h, f |-> f],
                [c EXCEPT ![h] = Col(@.els, TRUE, Upd(@.errs, ErrP(f)))])
AddE == \E h \in H, e \in Els : Do([op |-> "add", h |-> h, k |-> e.k], [c EXCEPT ![h] = Add(@, e)])
AddBadType == \E h \in H : Do([op |-> "addbad", h |-> h], c)
Discard == \E h \in H, e \in Els : Do([op |-> "discard", h |-> h, k |-> e.k], [c EXCEPT ![h] = Remove(@, e)])
RemoveE == \E h \in H, e \in Els : Do([op |-> "remove", h |-> h, k |-> e.k], [c EXCEPT ![h] = Remove(@, e)])
Pop == \E h \in H : \E e \in c[h].els : Do([op |-> "pop", h |-> h], [c EXCEPT ![h] = Remove(@, e)])
PopEmpty == \E h \in H : c[h].els = {} /\ Do([op |-> "pop", h |-> h], c)
ClearC == \E h \in H : Do([op |-> "clear", h |-> h], [c EXCEPT ![h] = EmptyCol])
Bin == \E h, g, d \in H, o \in {"or", "and", "sub", "xor"} :
             Do([op |-> o, h |-> h, g |-> g, d |-> d], [c EXCEPT ![d] = Binary(o, c[h], c[g])])
Inp == \E h, g \in H, o \in {"or", "and", "sub", "xor"} :
             Do([op |-> "i" \o o, h |-> h, g |-> g], [c EXCEPT ![h] = InPlace(o, c[h], c[g])])
PlusC == \E h, g, d \in H : Do([op |-> "plus", h |-> h, g |-> g, d |-> d], [c EXCEPT ![d] = Plus(c[h], c[g])])
CopyC == \E h, d \in H : Do([op |-> "copy", h |-> h, d |-> d], [c EXCEPT ![d] = c[h]])
DiscardID == \E h \in H, i \in Ids : 
               IF HasID(c[h], i)
               THEN \E e \in WithID(c[h], i) : Do([op |-> "discardID", h |-> h, id |-> i], [c EXCEPT ![h] = Remove(@, e)])
               ELSE Do([op |-> "discardID", h |-> h, id |-> i], c)
RemoveID == \E h \in H, i \in Ids : 
               IF HasID(c[h], i)
               THEN \E e \in WithID(c[h], i) : Do([op |-> "removeID", h |-> h, id |-> i], [c EXCEPT ![h] = Remove(@, e)])
               ELSE Do([op |-> "removeID", h |-> h, id |-> i], c)
Look == \E h \in H, i \in Ids : Do([op |-> "look", h |-> h, id |-> i], c)
Cmp == \E h, g \in H : Do([op |-> "cmp", h |-> h, g |-> g], c)
DropB == \E h \in H : Do([op |-> "dropbad", h |-> h], [c EXCEPT ![h] = DropBad(@)])
BadE == \E h, d \in H : Do([op |-> "badentries", h |-> h, d |-> d], [c EXCEPT ![d] = BadOnly(c[h])])
Cross == \E h \in H, o \in {"or", "and", "sub", "xor"} : Do([op |-> "cross", h |-> h, o |-> o], c)

\* a single last step, so that a simulated behaviour is printed exactly once
Fin == MaxLen > 0 /\ Len(hist) = MaxLen /\ op.op # "fin" /\ op' = [op |-> "fin"] /\ UNCHANGED <<c, hist>>
Step == /\ (MaxLen = 0 \/ Len(hist) < MaxLen)
        /\ \/ NewFrom \/ Mark \/ AddE \/ AddBadType \/ Discard \/ RemoveE \/ Pop \/ PopEmpty \/ ClearC
           \/ Bin \/ Inp \/ PlusC \/ CopyC \/ DiscardID \/ RemoveID \/ Look \/ Cmp \/ DropB \/ BadE \/ Cross
Next == Step \/ Fin

\* exhaustive runs: print every (state, operation) once; the VIEW hides op
NextEmit == Next /\ PrintT("T " \o ToJson([c |-> [h \in H |-> [keys |-> {e.k : e \in c[h].els}, bad |-> c[h].bad, errs |-> c[h].errs]], o |-> op']))
Spec == Init /\ [][Next]_vars
SpecEmit == Init /\ [][NextEmit]_vars
View == c

TypeOK == \A h \in H : /\ c[h].els \subseteq Els /\ c[h].bad \in BOOLEAN
                       /\ \A p, q \in c[h].errs : p[1] = q[1] => p = q
\* errors are only ever reported by a collection that says so
ErrsImplyBad == \A h \in H : c[h].errs # {} => c[h].bad
Laws == \A h, g \in H : LawsHold(c[h], c[g])
\* one operation changes at most the collection it writes
Frame == [][\E h \in H : \A g \in H \ {h} : c'[g] = c[g]]_vars

EmitHist == op.op = "fin" => PrintT("H " \o ToJson(hist))
=============================================================================
