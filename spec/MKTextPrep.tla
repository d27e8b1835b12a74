------------------------------ MODULE MKTextPrep ------------------------------
(***************************************************************************)
(* Preparing texts for language processing: an abstract is split at its     *)
(* copyright statement, rid of words, blanks, digits and punctuation, made  *)
(* lower case and stemmed, each step only when it was asked for.            *)
(* o: [drop (sequence), given, lower, numbers, nonwords, blanks, copyright, *)
(*     stem]                                                                *)
(***************************************************************************)
EXTENDS MKText, MKCommon

WordSet == LetterSet \cup DigitSet \cup {"_"}
IsAt(w, d, i) == i + Len(d) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(d) - 1) = d
\* one pass from the left over a sequence of words, leaving out the phrase d
RECURSIVE Pass(_, _, _)
Pass(w, d, i) == IF i > Len(w) THEN <<>>
                 ELSE IF IsAt(w, d, i) THEN Pass(w, d, i + Len(d))
                 ELSE <<w[i]>> \o Pass(w, d, i + 1)
RECURSIVE Without(_, _)
Without(w, d) == LET x == TLCEval(Pass(w, d, 1)) IN IF x = w THEN w ELSE Without(x, d)
RECURSIVE DropAll(_, _)
DropAll(w, drop) == IF drop = <<>> THEN w ELSE DropAll(Without(w, Split(drop[1], " ")), SubSeq(drop, 2, Len(drop)))
Dropped(s, drop) == Join(DropAll(Split(s, " "), drop), " ")

\* every run of blanks is one space
RECURSIVE Squeeze(_, _)
Squeeze(s, i) == IF i > Len(s) THEN ""
                 ELSE IF Ch(s, i) \in SpaceSet THEN " " \o Squeeze(s, i + RunIn(s, i, SpaceSet))
                 ELSE LET n == RunOut(s, i, SpaceSet) IN SubSeq(s, i, i + n - 1) \o Squeeze(s, i + n)
Kept(c, o) == c = " " \/ ~((o.numbers /\ c \in DigitSet) \/ (o.nonwords /\ c \notin WordSet))
Filter(s, o) == MapChars(s, LAMBDA c : IF Kept(c, o) THEN c ELSE "")
Stem(w, how) == CASE how = "title" -> Title(w) [] how = "cut" -> Upto(w, 3) [] how = "s" -> w \o "s" [] OTHER -> w

(* Copyright statements: the end of the text from the last occurrence of the *)
(* first known marker on, or of a marker with a year.                        *)
Markers == <<". &COPY; ", ". Crown Copyright", " Elsevier Ltd. ", ". Copyright", ". Published by Els", ". (c) ", ". (C) ">>
Year(s, i) == i + 3 <= Len(s) /\ \A j \in i..(i + 3) : Ch(s, j) \in DigitSet
CYear(s, i) == \* ". (C) 1999 " with or without the brackets: length of the match at i, 0 when there is none
    LET a == IF i + 2 <= Len(s) /\ Ch(s, i + 2) = "(" THEN i + 3 ELSE i + 2
        b == IF a + 1 <= Len(s) /\ Ch(s, a + 1) = ")" THEN a + 2 ELSE a + 1
    IN IF StartsAt(s, ". ", i) /\ a <= Len(s) /\ Ch(s, a) \in {"c", "C"} /\ b <= Len(s) /\ Ch(s, b) = " " /\ Year(s, b + 1) /\ b + 5 <= Len(s) /\ Ch(s, b + 5) = " "
       THEN b + 6 - i
       ELSE IF StartsAt(s, ". ", i) /\ Year(s, i + 2) /\ StartsAt(s, " Elsevier", i + 6) THEN 15 ELSE 0
MarkerIn(s) ==
    LET k == {i \in 1..Len(Markers) : Contains(s, Markers[i])}
        y == {i \in 1..Len(s) : CYear(s, i) > 0}
        first(I) == CHOOSE i \in I : \A j \in I : i <= j
    IN IF k # {} THEN Markers[first(k)]
       ELSE IF y # {} THEN SubSeq(s, first(y), first(y) + CYear(s, first(y)) - 1) ELSE ""
\* [text, statement]
Copyright(s) ==
    LET m == MarkerIn(s)
        p == LastFind(s, m) + (IF StartsWith(m, ".") THEN 1 ELSE 0)
        end == RStrip(From(s, LastFind(s, m) + Len(m)))
    IN IF m = "" THEN [text |-> s, statement |-> ""]
       ELSE [text |-> Upto(s, p - 1), statement |-> (IF StartsWith(m, ".") THEN From(m, 2) ELSE m) \o end]

Prepare(s, o) ==
    LET a == IF o.given THEN Dropped(Replace(s, "\n", " "), o.drop) ELSE s
        b == IF o.blanks THEN Squeeze(a, 1) ELSE a
        c == IF o.copyright THEN Copyright(b) ELSE [text |-> b, statement |-> ""]
        d == IF o.lower THEN Lower(c.text) ELSE c.text
        e == Filter(d, o)
        w == Split(e, " ")
    IN [text |-> IF o.stem = "" THEN e ELSE Join([i \in 1..Len(w) |-> Stem(w[i], o.stem)], " "), statement |-> c.statement]
\* the words of a field
Words(s, o) ==
    LET a == IF o.given THEN Dropped(s, o.drop) ELSE s
        b == IF o.blanks THEN Squeeze(a, 1) ELSE a
        d == IF o.lower THEN Lower(b) ELSE b
        w == SelectSeq(Split(Filter(d, o), " "), LAMBDA x : x # "")
    IN [i \in 1..Len(w) |-> Stem(w[i], o.stem)]
=============================================================================
