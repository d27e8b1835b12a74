------------------------------ MODULE MKMedline ------------------------------
(***************************************************************************)
(* The Medline (PubMed) format: a reader automaton over lines, and a       *)
(* writer.  A block starts at a PMID line and ends at an empty line.  A    *)
(* block is a sequence of [t, v]: tag and its values, in the order in      *)
(* which the tags first occur.  A value of several lines is one text with  *)
(* line breaks.  Addresses and identifiers belong to the author before     *)
(* them and are kept as "author : text".                                   *)
(***************************************************************************)
EXTENDS MKCommon, MKText

AuthorTags == {"AD", "AUID"}

RECURSIVE IsAlpha(_)
IsAlpha(s) == IF Len(s) = 0 THEN FALSE ELSE IF Len(s) = 1 THEN s \in LetterSet ELSE Ch(s, 1) \in LetterSet /\ IsAlpha(From(s, 2))

TagText(s) == RStrip(Upto(s, 4))
Kind(s) == IF s = "" THEN "blank"
           ELSE IF Len(s) >= 5 /\ Ch(s, 5) = "-" /\ IsAlpha(TagText(s)) THEN "tag"
           ELSE IF StartsWith(s, "      ") THEN "cont" ELSE "malformed"

Tags(b) == [i \in 1..Len(b) |-> b[i].t]
ValuesOf(b, t) == LET i == IndexOf(Tags(b), t) IN IF i = 0 THEN <<>> ELSE b[i].v
IdOf(b) == ValuesOf(b, "PMID")[1]

AddValue(b, t, x) == LET i == IndexOf(Tags(b), t)
                     IN IF i = 0 THEN Append(b, [t |-> t, v |-> <<x>>]) ELSE [b EXCEPT ![i].v = Append(@, x)]
JoinLast(b, t, x) == LET i == IndexOf(Tags(b), t)
                     IN [b EXCEPT ![i].v[Len(b[i].v)] = @ \o "\n" \o x]

Start0 == [mode |-> "between", cur |-> <<>>, tag |-> "PMID", author |-> "None", at |-> 0, recs |-> <<>>, damage |-> FALSE]

InBlock(q, s) ==
  CASE Kind(s) = "blank" -> [q EXCEPT !.mode = "between", !.cur = <<>>, !.recs = Append(@, [f |-> q.cur, at |-> q.at])]
    [] Kind(s) = "tag" -> LET t == TagText(s) x == From(s, 7) IN
          [q EXCEPT !.tag = t, !.author = IF t = "AU" THEN x ELSE @,
                    !.cur = AddValue(@, t, IF t \in AuthorTags THEN q.author \o " : " \o x ELSE x)]
    [] Kind(s) = "cont" -> [q EXCEPT !.cur = JoinLast(@, q.tag, From(s, 7)),
                                     !.author = IF q.tag = "AU" THEN @ \o "\n" \o From(s, 7) ELSE @]
    \* the block is lost; its remaining lines belong to nothing
    [] Kind(s) = "malformed" -> [q EXCEPT !.mode = "between", !.cur = <<>>, !.damage = TRUE]

Line(q, s, n) ==
  IF q.mode = "in" THEN InBlock(q, s)
  ELSE IF StartsWith(s, "PMID- ")
       THEN InBlock([q EXCEPT !.mode = "in", !.at = n, !.author = "None", !.tag = "PMID"], s)
       ELSE IF s = "" THEN q ELSE [q EXCEPT !.damage = TRUE]

\* the state after lines a to b (halved, because TLC takes quadratic time over a deep recursion)
RECURSIVE FoldRange(_, _, _, _, _)
FoldRange(q, ls, a, b, n0) == IF a > b THEN q ELSE IF a = b THEN Line(q, ls[a], n0 + a - 1)
                              ELSE LET m == (a + b) \div 2
                                       p == TLCEval(FoldRange(q, ls, a, m, n0))
                                   IN IF p.mode = "" THEN p ELSE FoldRange(p, ls, m + 1, b, n0)   \* (the test has TLC evaluate p before it goes on)
Fold(q, ls, i, n0) == FoldRange(q, ls, i, Len(ls), n0)
Finish(q) == IF q.mode = "in" THEN [q EXCEPT !.mode = "between", !.cur = <<>>, !.recs = Append(@, [f |-> q.cur, at |-> q.at])] ELSE q
Read(ls, n0) == Finish(Fold(Start0, ls, 1, n0))

---------------------------------------------------------------------------
(* the writer: what belongs to an author is written after it *)
Padded(t) == t \o (CASE Len(t) = 1 -> "   " [] Len(t) = 2 -> "  " [] Len(t) = 3 -> " " [] OTHER -> "") \o "- "
ValueLines(t, x) == LET p == Split(x, "\n") IN [i \in 1..Len(p) |-> (IF i = 1 THEN Padded(t) ELSE "      ") \o p[i]]
Belongs(x, a) == StartsWith(x, a \o " : ")
OfAuthor(b, a) == FlattenSeqs([k \in 1..2 |->
                    LET t == <<"AD", "AUID">>[k]
                        vs == SelectSeq(ValuesOf(b, t), LAMBDA x : Belongs(x, a))
                    IN FlattenSeqs([i \in 1..Len(vs) |-> ValueLines(t, From(vs[i], Len(a) + 4))])])
WriteBlock(b) == FlattenSeqs([i \in 1..Len(b) |->
                   IF b[i].t \in AuthorTags THEN <<>>
                   ELSE FlattenSeqs([j \in 1..Len(b[i].v) |->
                          ValueLines(b[i].t, b[i].v[j])
                          \o (IF b[i].t = "PMID" /\ i = 1 /\ j = 1 THEN OfAuthor(b, "None") ELSE <<>>)
                          \o (IF b[i].t = "AU" THEN OfAuthor(b, b[i].v[j]) ELSE <<>>)])])
WriteAll(bs) == <<"">> \o FlattenSeqs([i \in 1..Len(bs) |-> Append(WriteBlock(bs[i]), "")])

\* the same tags with the same values in the same order
SameFields(a, b) == Len(a) = Len(b) /\ NoDups(Tags(a)) /\ \A i \in 1..Len(a) : ValuesOf(b, a[i].t) = a[i].v
=============================================================================
