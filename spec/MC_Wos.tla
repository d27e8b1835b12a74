------------------------------- MODULE MC_Wos -------------------------------
(* Files built line by line: every sequence of line classes up to MaxLines. *)
EXTENDS MKWos, TLC, Json
CONSTANTS MaxLines
Shapes == <<"UT WOS:1", "UT WOS:2", "AU Lee, K", "   Oh, A", "ER", "EF", "", "x", "AB", "Title: y">>
VARIABLES ls, q
vars == <<ls, q>>
Init == ls = <<>> /\ q = Start0
Next == /\ Len(ls) < MaxLines
        /\ \E i \in 1..Len(Shapes) : ls' = Append(ls, Shapes[i]) /\ q' = Line(q, Shapes[i], Len(ls) + 1)
Spec == Init /\ [][Next]_vars
Emit(x) == PrintT("L " \o ToJson(x))
SpecEmit == Init /\ [][Next /\ Emit(ls')]_vars

\* the automaton is the closed form over the blocks that end-of-record lines delimit
StepsAreFold == Finish(q) = Read(ls, 1)
\* blocks read do not change what was read before: intact records are only ever added
Monotone == \A k \in 0..Len(ls) : LET p == Fold(Start0, SubSeq(ls, 1, k), 1, 1)
                                  IN Len(p.recs) <= Len(q.recs) /\ SubSeq(q.recs, 1, Len(p.recs)) = p.recs
\* truncation: what is read from a beginning of the file is exactly the records that end in it, and it is damaged
Truncated == \A k \in 0..Len(ls) :
               LET r == Read(SubSeq(ls, 1, k), 1) IN
               /\ \A i \in 1..Len(r.recs) : q.recs[i] = r.recs[i]
               /\ ~r.damage => \E i \in 1..k : StartsWith(ls[i], "EF")
\* a written file is read completely, without damage, to the same blocks
RoundTrip == LET bs == [i \in 1..Len(q.recs) |-> q.recs[i].f]
                 r == Read(WriteAll(bs), 3)
             IN ~r.damage /\ [i \in 1..Len(r.recs) |-> r.recs[i].f] = bs
\* every record read is a block of the file between two end-of-record lines
FromFile == \A i \in 1..Len(q.recs) :
              LET w == WriteBlock(q.recs[i].f) a == q.recs[i].at IN a + Len(w) - 1 <= Len(ls) /\ SubSeq(ls, a, a + Len(w) - 1) = w
NoDamageNoLoss == (~Finish(q).damage) =>
              \A i \in 1..Len(ls) : Kind(ls[i]) \notin {"tag", "cont"} \/ \E j \in 1..Len(q.recs) :
                     q.recs[j].at <= i /\ i < q.recs[j].at + Len(WriteBlock(q.recs[j].f))
=============================================================================
