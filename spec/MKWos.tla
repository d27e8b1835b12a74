-------------------------------- MODULE MKWos --------------------------------
(***************************************************************************)
(* The Web of Science export format: a reader automaton over the lines     *)
(* that follow the header, and a writer.                                   *)
(*                                                                         *)
(* A line is the text without its line break.  The automaton's state is    *)
(*   mode   "between" blocks, "in" a block, "skip"ping a damaged block,    *)
(*          "done" after the end marker                                    *)
(*   cur    the block read so far: a sequence of [t, v] (tag, its lines)   *)
(*   at     the number of the block's first line                           *)
(*   recs   the finished intact blocks [f, at], in file order              *)
(*   loose  the fields of blocks broken by a line too short to be anything *)
(*          (what the rest of such a block is taken for is left open)      *)
(*   damage something in the file was not as it should be                  *)
(***************************************************************************)
EXTENDS MKCommon, MKText

Blank(s) == Strip(s) = ""
Kind(s) == IF Len(s) < 2 THEN "short"
           ELSE IF SubSeq(s, 1, 2) = "ER" THEN "ER"
           ELSE IF Len(s) < 3 \/ Ch(s, 3) # " " THEN "malformed"
           ELSE IF SubSeq(s, 1, 3) = "   " THEN "cont"
           ELSE "tag"

Start0 == [mode |-> "between", cur |-> <<>>, at |-> 0, recs |-> <<>>, loose |-> <<>>, damage |-> FALSE, tail |-> FALSE, blankend |-> FALSE]

AddLine(cur, s) == [cur EXCEPT ![Len(cur)].v = Append(@, From(s, 4))]
AddTag(cur, s)  == Append(cur, [t |-> SubSeq(s, 1, 2), v |-> <<From(s, 4)>>])
TagsOf(b)       == [i \in 1..Len(b) |-> b[i].t]
WellFormed(b)   == NoDups(TagsOf(b)) /\ "UT" \in SeqRange(TagsOf(b))
UTOf(b)         == b[IndexOf(TagsOf(b), "UT")].v[1]

\* a line of a block; a line too short to be anything ends the block it stands in,
\* and what follows it up to the end of that record is a block broken off as well
InBlock(q, s) ==
  CASE Kind(s) = "ER" ->
         IF q.tail THEN [q EXCEPT !.mode = "between", !.cur = <<>>, !.tail = FALSE, !.loose = Append(@, q.cur)]
         ELSE IF WellFormed(q.cur) THEN [q EXCEPT !.mode = "between", !.cur = <<>>, !.recs = Append(@, [f |-> q.cur, at |-> q.at])]
         ELSE [q EXCEPT !.mode = "between", !.cur = <<>>, !.damage = TRUE]
    [] Kind(s) = "short" -> [q EXCEPT !.mode = "between", !.cur = <<>>, !.tail = TRUE, !.loose = Append(@, q.cur), !.damage = TRUE]
    [] Kind(s) = "malformed" \/ (Kind(s) = "cont" /\ q.cur = <<>>) -> [q EXCEPT !.mode = "skip", !.cur = <<>>, !.damage = TRUE]
    [] Kind(s) = "cont" -> [q EXCEPT !.mode = "in", !.cur = AddLine(@, s)]
    [] Kind(s) = "tag"  -> [q EXCEPT !.mode = "in", !.cur = AddTag(@, s)]

\* one line; n is its number
Line(q, s, n) ==
  CASE q.mode = "done" -> IF Blank(s) THEN [q EXCEPT !.blankend = TRUE] ELSE [q EXCEPT !.damage = TRUE]
    [] q.mode = "skip" -> IF Kind(s) = "ER" THEN [q EXCEPT !.mode = "between", !.tail = FALSE] ELSE q
    [] q.mode = "between" ->
         IF Blank(s) THEN q
         ELSE IF StartsWith(s, "EF") THEN [q EXCEPT !.mode = "done"]
         \* alone between blocks such a line is damage but breaks no block
         ELSE IF Kind(s) = "short" THEN [q EXCEPT !.damage = TRUE]
         ELSE InBlock([q EXCEPT !.at = n], s)
    [] q.mode = "in" -> InBlock(q, s)

\* the state after lines a to b (halved, because TLC takes quadratic time over a deep recursion)
RECURSIVE FoldRange(_, _, _, _, _)
FoldRange(q, ls, a, b, n0) == IF a > b THEN q ELSE IF a = b THEN Line(q, ls[a], n0 + a - 1)
                              ELSE LET m == (a + b) \div 2
                                       p == TLCEval(FoldRange(q, ls, a, m, n0))
                                   IN IF p.mode = "" THEN p ELSE FoldRange(p, ls, m + 1, b, n0)   \* (the test has TLC evaluate p before it goes on)
Fold(q, ls, i, n0) == FoldRange(q, ls, i, Len(ls), n0)

\* the end of the file: anything but a clean end after the end marker is damage
Finish(q) == IF q.mode = "done" THEN q ELSE [q EXCEPT !.damage = TRUE]

\* the result of reading the lines after the header; the first has number n0
Read(ls, n0) == Finish(Fold(Start0, ls, 1, n0))

---------------------------------------------------------------------------
(* the writer *)
BlockLines(f) == FlattenSeqs([i \in 1..Len(f) |-> [j \in 1..Len(f[i].v) |-> (IF j = 1 THEN f[i].t \o " " ELSE "   ") \o f[i].v[j]]])
WriteBlock(f) == Append(BlockLines(f), "ER")
WriteBlocks(rs) == FlattenSeqs([i \in 1..Len(rs) |-> Append(WriteBlock(rs[i]), "")])
WriteAll(rs) == Append(WriteBlocks(rs), "EF")

\* a block is part of another: the same or fewer lines of some of its tags, in order
RECURSIVE SubFields(_, _, _, _)
SubFields(a, i, b, j) == IF i > Len(a) THEN TRUE
                         ELSE IF j > Len(b) THEN FALSE
                         ELSE IF a[i] = b[j] THEN SubFields(a, i + 1, b, j + 1) ELSE SubFields(a, i, b, j + 1)
PartOf(a, b) == SubFields(a, 1, b, 1)
=============================================================================
