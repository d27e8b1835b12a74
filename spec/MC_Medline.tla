------------------------------ MODULE MC_Medline ------------------------------
(* Medline files built line by line. *)
EXTENDS MKMedline, TLC, Json
CONSTANTS MaxLines
Shapes == <<"PMID- 1", "PMID- 2", "TI  - A title", "AU  - Lee K", "AU  - Oh A", "AD  - Univ : X", "AUID- ORCID: 1", "      more", "", "what">>
VARIABLES ls, q
vars == <<ls, q>>
Init == ls = <<>> /\ q = Start0
Next == /\ Len(ls) < MaxLines
        /\ \E i \in 1..Len(Shapes) :
              \* blocks are separated by empty lines, and authors are told apart by their names
              /\ (q.mode = "in" => i > 2)
              /\ (i \in {4, 5} /\ q.mode = "in") => From(Shapes[i], 7) \notin SeqRange(ValuesOf(q.cur, "AU"))
              /\ ls' = Append(ls, Shapes[i]) /\ q' = Line(q, Shapes[i], Len(ls) + 1)
Spec == Init /\ [][Next]_vars
Emit(x) == PrintT("L " \o ToJson(x))
SpecEmit == Init /\ [][Next /\ Emit(ls')]_vars

StepsAreFold == Finish(q) = Read(ls, 1)
Monotone == \A k \in 0..Len(ls) : LET p == Fold(Start0, SubSeq(ls, 1, k), 1, 1)
                                  IN Len(p.recs) <= Len(q.recs) /\ SubSeq(q.recs, 1, Len(p.recs)) = p.recs
Blocks == [i \in 1..Len(Finish(q).recs) |-> Finish(q).recs[i].f]
RoundTrip == LET r == Read(WriteAll(Blocks), 1)
             IN ~r.damage /\ Len(r.recs) = Len(Blocks) /\ \A i \in 1..Len(Blocks) : SameFields(r.recs[i].f, Blocks[i])
\* nothing is lost: without damage every tag line and continuation is in some value
AllKept == (~Finish(q).damage /\ \A i \in 1..Len(Blocks) : \A x \in SeqRange(ValuesOf(Blocks[i], "AU")) : ~Contains(x, "\n")) =>
   Cardinality({i \in 1..Len(ls) : Kind(ls[i]) \in {"tag", "cont"}}) =
   SumSeq([i \in 1..Len(Blocks) |-> SumSeq([j \in 1..Len(Blocks[i]) |-> SumSeq([k \in 1..Len(Blocks[i][j].v) |-> Len(Split(Blocks[i][j].v[k], "\n"))])])])
\* damage in one block leaves the others alone
Independent == \A i \in 1..Len(Blocks) : \E a, b \in 1..Len(ls) : a <= b /\ Read(SubSeq(ls, a, b), a) =
                  [Finish(Start0) EXCEPT !.recs = <<[f |-> Blocks[i], at |-> a]>>, !.tag = Read(SubSeq(ls, a, b), a).tag, !.author = Read(SubSeq(ls, a, b), a).author, !.at = a]
=============================================================================
