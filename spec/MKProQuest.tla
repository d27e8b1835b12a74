------------------------------ MODULE MKProQuest ------------------------------
(***************************************************************************)
(* ProQuest plain text exports: a head, a table of contents of numbered     *)
(* titles, one block of labelled fields per document, and a bibliography.   *)
(* The reader is an automaton over lines:                                   *)
(*   "head" the first lines; "gap"/"entry" the table of contents;           *)
(*   "rule" the lines between it and the first document; "doc" before a     *)
(*   document; "rec" inside one; "after" its end; "done"; "failed".         *)
(* A block is a sequence of [t, v]; a label alone, the name of the document *)
(* and its address (after the author) are fields too; further lines belong  *)
(* to the field before them.                                                *)
(***************************************************************************)
EXTENDS MKCommon, MKText, TLC

Rule == "____________________________________________________________"
HeadLines == 12
Tags(b) == [i \in 1..Len(b) |-> b[i].t]
Has(b, t) == \E i \in 1..Len(b) : b[i].t = t
ValuesOf(b, t) == LET i == IndexOf(Tags(b), t) IN IF i = 0 THEN <<>> ELSE b[i].v
IdTag == "ProQuest document ID"
IdOf(b) == ValuesOf(b, IdTag)[1]

Start0 == [mode |-> "head", n |-> 0, toc |-> {}, cur |-> <<>>, entry |-> "Name", doc |-> 0, at |-> 0,
           recs |-> <<>>, noid |-> 0, damage |-> FALSE]
Fail(q) == [q EXCEPT !.mode = "failed", !.damage = TRUE, !.cur = <<>>]

Add(b, t, x) == LET i == IndexOf(Tags(b), t)
                IN IF i = 0 THEN Append(b, [t |-> t, v |-> <<x>>]) ELSE [b EXCEPT ![i].v = Append(@, x)]
IsLabel(s) == Contains(s \o " ", ": ") /\ ~StartsWith(s, "http://")
LabelOf(s) == Split(s \o " ", ": ")[1]
AfterLabel(s) == LET p == TLCEval(s \o " ") IN RStrip(From(p, Find(p, ": ") + 2))

EndDoc(q) == IF Len(ValuesOf(q.cur, "Title")) > 0 /\ [n |-> q.doc, x |-> ValuesOf(q.cur, "Title")[1]] \in q.toc
             THEN IF Has(q.cur, IdTag) THEN [q EXCEPT !.mode = "after", !.recs = Append(@, [f |-> q.cur, at |-> q.at]), !.cur = <<>>]
                  ELSE [q EXCEPT !.mode = "after", !.noid = @ + 1, !.damage = TRUE, !.cur = <<>>]
             ELSE Fail(q)
RecLine(q, s) ==
  IF s = Rule THEN EndDoc(q)
  ELSE IF s = "" THEN q
  ELSE IF q.entry \in {"Name", "url"} THEN [q EXCEPT !.cur = Add(@, q.entry, RStrip(s)), !.entry = "none"]
  ELSE IF IsLabel(s) THEN [q EXCEPT !.cur = Add(@, LabelOf(s), AfterLabel(s)),
                                    !.entry = IF LabelOf(s) = "Author" THEN "url" ELSE LabelOf(s)]
  ELSE IF Has(q.cur, q.entry) THEN [q EXCEPT !.cur = Add(@, q.entry, RStrip(s))]
  ELSE Fail(q)

Line(q, s, n) ==
  CASE q.mode \in {"done", "failed"} -> q
    [] q.mode = "head" -> IF q.n + 1 = HeadLines THEN [q EXCEPT !.mode = "gap", !.n = 0] ELSE [q EXCEPT !.n = @ + 1]
    [] q.mode = "gap" -> [q EXCEPT !.mode = "entry"]
    [] q.mode = "entry" -> IF s = "Bibliography" THEN [q EXCEPT !.mode = "rule", !.n = 0]
                           ELSE LET p == Split(s, ". ")
                                IN IF ~IsDigits(p[1]) THEN Fail(q)
                                   ELSE LET k == NatOf(p[1]) IN [q EXCEPT !.mode = "gap", !.toc = {x \in @ : x.n # k} \cup {[n |-> k, x |-> From(s, Len(p[1]) + 3)]}]
    [] q.mode = "rule" -> IF q.n + 1 = 3 THEN [q EXCEPT !.mode = "doc", !.n = 0] ELSE [q EXCEPT !.n = @ + 1]
    [] q.mode = "doc" -> IF s = "Bibliography" THEN [q EXCEPT !.mode = "done"]
                         ELSE LET d == Split(From(s, 10), " of ")[1]
                              IN IF StartsWith(s, "Document ") /\ IsDigits(d) THEN [q EXCEPT !.mode = "rec", !.doc = NatOf(d), !.at = n, !.entry = "Name", !.cur = <<>>]
                                 ELSE Fail(q)
    [] q.mode = "rec" -> RecLine(q, s)
    [] q.mode = "after" -> [q EXCEPT !.mode = "doc"]

\* the state after lines a to b (halved, because TLC takes quadratic time over a deep recursion)
RECURSIVE FoldRange(_, _, _, _)
FoldRange(q, ls, a, b) == IF a > b THEN q ELSE IF a = b THEN Line(q, ls[a], a)
                          ELSE LET m == (a + b) \div 2
                                   p == TLCEval(FoldRange(q, ls, a, m))
                               IN IF p.mode = "" THEN p ELSE FoldRange(p, ls, m + 1, b)   \* (the test has TLC evaluate p before it goes on)
Fold(q, ls, i) == FoldRange(q, ls, i, Len(ls))
Finish(q) == IF q.mode = "done" THEN q ELSE [q EXCEPT !.damage = TRUE]
Read(ls) == Finish(Fold(Start0, ls, 1))

---------------------------------------------------------------------------
(* a file of blocks, each with its name and address as the format wants them *)
FieldLines(b) == FlattenSeqs([i \in 1..Len(b) |->
      FlattenSeqs([j \in 1..Len(b[i].v) |-> <<"", IF j = 1 /\ b[i].t \notin {"Name", "url"} THEN b[i].t \o ": " \o b[i].v[j] ELSE b[i].v[j]>>])])
Render(head, bs) ==
   head \o FlattenSeqs([i \in 1..Len(bs) |-> <<"", ToString(i) \o ". " \o ValuesOf(bs[i], "Title")[1]>>])
   \o <<"", "Bibliography", "", Rule, "">>
   \o FlattenSeqs([i \in 1..Len(bs) |-> <<"Document " \o ToString(i) \o " of " \o ToString(Len(bs))>> \o FieldLines(bs[i]) \o <<"", Rule, "">>])
   \o <<"Bibliography", "">>

---------------------------------------------------------------------------
(* the decoded view *)
First(b, t) == ValuesOf(b, t)[1]
Authors(b) == <<First(b, "Author")>>
\* lists: the pieces of every line of the field
Pieces(b, t, sep) == LET v == ValuesOf(b, t) IN FlattenSeqs([i \in 1..Len(v) |-> Split(v[i], sep)])
Keywords(b) == Pieces(b, "Identifier / keyword", ", ")
Subjects(b) == Pieces(b, "Subject", "; ")
Classes(b) == LET p == Pieces(b, "Classification", "; ") IN [i \in 1..Len(p) |-> Split(p[i], ": ")]
Year(b) == NatOf(First(b, "Degree date"))
Abstract(b) == Join(ValuesOf(b, "Abstract"), " ")
=============================================================================
