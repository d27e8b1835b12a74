------------------------------ MODULE MC_ProQuest ------------------------------
(* Documents grown line by line from several places of a file; the head and     *)
(* table of contents are those of two documents T and U.                        *)
EXTENDS MKProQuest, Json
CONSTANTS More
HeadLs == <<Rule, "", "Report Information from ProQuest", "May 1 2015", Rule, "", "", "", "", Rule, "", "Table of contents">>
Toc == <<"", "1. T", "", "2. U: a. b", "", "Bibliography", "", Rule, "">>
Doc1 == <<"Document 1 of 2", "T", "Author: Lee, K", "http://u", "Title: T">>
Whole1 == Doc1 \o <<"ProQuest document ID: 7", Rule, "">>
Doc2 == <<"Document 2 of 2", "U: a. b", "Author: Oh, A", "", "http://v", "ProQuest document ID: 8">>
Starts == {<<>>, SubSeq(Doc1, 1, 1), SubSeq(Doc1, 1, 3), Doc1, Doc1 \o <<"ProQuest document ID: 7">>, Whole1, Whole1 \o Doc2}
Shapes == <<"Document 1 of 2", "Document 2 of 2", "Author: Lee, K", "Title: T", "Title: U: a. b", "ProQuest document ID: 9", "Links: a", "more text", "http://x: y", "Empty:", "", Rule, "Bibliography">>
VARIABLES body, q, left
vars == <<body, q, left>>
Pre == HeadLs \o Toc
Init == /\ body \in Starts /\ left = More
        /\ q = Fold(Start0, Pre \o body, 1)
Next == /\ left > 0 /\ q.mode \notin {"done", "failed"}
        /\ \E i \in 1..Len(Shapes) : body' = Append(body, Shapes[i]) /\ q' = Line(q, Shapes[i], Len(Pre) + Len(body) + 1)
        /\ left' = left - 1
Spec == Init /\ [][Next]_vars
Emit == PrintT("L " \o ToJson(Pre \o body))

File == Pre \o body
StepsAreFold == Finish(q) = Read(File)
\* a beginning of the file gives the documents that end in it, and is damaged unless the documents were all there
Truncated == \A k \in (Len(Pre) + 1)..Len(File) : LET p == Read(SubSeq(File, 1, k)) IN
               /\ Len(p.recs) <= Len(q.recs) /\ SubSeq(q.recs, 1, Len(p.recs)) = p.recs
               /\ (~p.damage => File[k] = "Bibliography" \/ q.mode = "done")
Regular(b) == /\ Len(b) > 1 /\ b[1].t = "Name" /\ Has(b, "Title") /\ (Has(b, "Author") => Has(b, "url"))
RECURSIVE UrlPlaced(_, _)
UrlPlaced(b, i) == IF i > Len(b) THEN TRUE
                   ELSE /\ (b[i].t = "Author" => Len(b[i].v) = 1 /\ i < Len(b) /\ b[i + 1].t = "url")
                        /\ (b[i].t = "url" => i > 1 /\ b[i - 1].t = "Author")
                        /\ UrlPlaced(b, i + 1)
\* fields whose values a file can show: one line after the label, then lines that are no labels
Showable(b) == Regular(b) /\ UrlPlaced(b, 1) /\ \A i \in 1..Len(b) : \A j \in 2..Len(b[i].v) : b[i].v[j] # "" /\ ~IsLabel(b[i].v[j])
Blocks == [i \in 1..Len(q.recs) |-> q.recs[i].f]
RoundTrip == (\A i \in 1..Len(Blocks) : Showable(Blocks[i])) =>
               LET r == Read(Render(HeadLs, Blocks)) IN ~r.damage /\ [i \in 1..Len(r.recs) |-> r.recs[i].f] = Blocks
=============================================================================
