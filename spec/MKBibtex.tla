------------------------------ MODULE MKBibtex ------------------------------
(***************************************************************************)
(* BibTeX: the grammar of a file of entries as a reader, and the writer     *)
(* that makes an entry of a record's key, authors and fields.               *)
(*   entry  @type{ key, name = value, name = value, }                       *)
(*   value  piece # piece # ...     piece  "text" or {text}, braces in the  *)
(*          text balanced, no quotation mark at level 0 of a quoted text    *)
(* Text outside of the entries is no part of the file's contents.           *)
(***************************************************************************)
EXTENDS MKText, MKCommon
QM == "\""
BS == "\\"
Fail == [ok |-> FALSE, i |-> 0, x |-> <<>>]
SkipWs(s, i) == i + RunIn(s, i, SpaceSet)

\* position of the brace that closes depth d, 0 when there is none
RECURSIVE BraceEnd(_, _, _)
BraceEnd(s, i, d) == LET j == i + RunOut(s, i, {"{", "}"})
                     IN IF j > Len(s) THEN 0 ELSE IF Ch(s, j) = "{" THEN BraceEnd(s, j + 1, d + 1)
                        ELSE IF d = 1 THEN j ELSE BraceEnd(s, j + 1, d - 1)
\* position of the quotation mark that closes a quoted text
RECURSIVE QuoteEnd(_, _, _)
QuoteEnd(s, i, d) == LET j == i + RunOut(s, i, {"{", "}", QM})
                     IN IF j > Len(s) THEN 0
                        ELSE IF Ch(s, j) = "{" THEN QuoteEnd(s, j + 1, d + 1)
                        ELSE IF Ch(s, j) = "}" THEN IF d = 0 THEN 0 ELSE QuoteEnd(s, j + 1, d - 1)
                        ELSE IF d = 0 THEN j ELSE QuoteEnd(s, j + 1, d)
Slice(s, a, b) == IF a > b THEN "" ELSE SubSeq(s, a, b)
\* a value: its pieces, [k |-> "b" or "q", t |-> text]
RECURSIVE ReadValue(_, _, _)
ReadValue(s, i0, got) ==
    LET i == SkipWs(s, i0)
        c == IF i > Len(s) THEN "" ELSE Ch(s, i)
        e == IF c = "{" THEN BraceEnd(s, i + 1, 1) ELSE IF c = QM THEN QuoteEnd(s, i + 1, 0) ELSE 0
        pieces == Append(got, [k |-> IF c = "{" THEN "b" ELSE "q", t |-> Slice(s, i + 1, e - 1)])
        j == IF e = 0 THEN 0 ELSE SkipWs(s, e + 1)
    IN IF e = 0 THEN Fail
       ELSE IF j <= Len(s) /\ Ch(s, j) = "#" THEN ReadValue(s, j + 1, pieces)
       ELSE [ok |-> TRUE, i |-> j, x |-> pieces]
NotInNames == SpaceSet \cup {"{", "}", ",", "=", "#", QM, "(", ")", "%"}
RECURSIVE ReadFields(_, _, _)
ReadFields(s, i0, got) ==
    LET i == SkipWs(s, i0)
        n == RunOut(s, i, NotInNames)
        eq == SkipWs(s, i + n)
    IN IF i > Len(s) THEN Fail
       ELSE IF Ch(s, i) = "}" THEN [ok |-> TRUE, i |-> i + 1, x |-> got]
       ELSE IF n = 0 \/ eq > Len(s) \/ Ch(s, eq) # "=" THEN Fail
       ELSE LET v == TLCEval(ReadValue(s, eq + 1, <<>>))
                more == Append(got, [n |-> SubSeq(s, i, i + n - 1), p |-> v.x])
            IN IF ~v.ok \/ v.i > Len(s) THEN Fail
               ELSE IF Ch(s, v.i) = "," THEN ReadFields(s, v.i + 1, more)
               ELSE IF Ch(s, v.i) = "}" THEN [ok |-> TRUE, i |-> v.i + 1, x |-> more] ELSE Fail
\* the entries from position i on: [ok, x: sequence of [type, key, fields]]
RECURSIVE ReadEntries(_, _, _)
ReadEntries(s, i, got) ==
    LET a == FindFrom(s, "@", i)
        tn == RunOut(s, a + 1, NotInNames)
        b == SkipWs(s, a + 1 + tn)
        k == SkipWs(s, b + 1)
        kn == RunOut(s, k, NotInNames)
        c == SkipWs(s, k + kn)
    IN IF a = 0 THEN [ok |-> TRUE, x |-> got]
       ELSE IF tn = 0 \/ b > Len(s) \/ Ch(s, b) # "{" \/ kn = 0 \/ c > Len(s) \/ Ch(s, c) # "," THEN [ok |-> FALSE, x |-> got]
       ELSE LET f == TLCEval(ReadFields(s, c + 1, <<>>))
            IN IF ~f.ok THEN [ok |-> FALSE, x |-> got]
               ELSE ReadEntries(s, f.i, Append(got, [type |-> SubSeq(s, a + 1, a + tn), key |-> SubSeq(s, k, k + kn - 1), fields |-> f.x]))
Read(s) == ReadEntries(s, 1, <<>>)

\* what a reader takes a value for: an escaped brace is a brace, a second pair of braces keeps the text as it is
TextOf(p) == LET whole == Concat([i \in 1..Len(p) |-> p[i].t])
             IN IF Len(p) = 1 /\ p[1].k = "b" /\ StartsWith(whole, "{") /\ BraceEnd(whole, 2, 1) = Len(whole)
                THEN Slice(whole, 2, Len(whole) - 1)
                ELSE Replace(Replace(whole, BS \o "{", "{"), BS \o "}", "}")

Balanced(s) == BraceEnd(s \o "}", 1, 1) = Len(s) + 1
\* nothing is escaped: unbalanced braces, and braces in a text that is cut in pieces, have no BibTeX form
Writable(v, max, wos) == Balanced(v) /\ ~Contains(v, BS) /\ (wos \/ Len(v) <= max \/ ~(Contains(v, "{") \/ Contains(v, "}")))

NotInKeys == NotInNames \cup {"'", "~", BS}
Clean(s) == MapChars(s, LAMBDA c : IF c \in NotInKeys THEN "-" ELSE c)

RECURSIVE Chunks(_, _)
Chunks(v, max) == IF Len(v) <= max THEN <<v>> ELSE <<Upto(v, max)>> \o Chunks(From(v, max + 1), max)
\* the part of a long value that fills whole pieces
Whole(v, max) == IF Len(v) <= max THEN v ELSE Upto(v, (Len(v) \div max) * max)
Quote(v) == QM \o v \o QM
Brace(v) == "{" \o v \o "}"
WriteValue(v, max, wos) ==
    IF wos THEN Brace(Brace(v))
    ELSE IF Len(v) > max THEN LET c == Chunks(v, max) IN Join([i \in 1..Len(c) |-> IF Contains(v, QM) THEN Brace(c[i]) ELSE Quote(c[i])], " # ")
    ELSE IF Contains(v, QM) THEN Brace(Replace(Replace(v, "{", BS \o "{"), "}", BS \o "}")) ELSE Quote(v)
WriteEntry(key, authors, fields, max, wos) ==
    "@misc{ " \o Clean(key) \o ",\n    author = " \o Brace(Brace(authors)) \o "," \o
    Concat([i \in 1..Len(fields) |-> "\n    " \o Clean(fields[i][1]) \o " = " \o WriteValue(fields[i][2], max, wos) \o ","]) \o "\n}"

(* The readable key: first author, year, month and the longest words of the  *)
(* title, the later first among those of one length, and the identifier      *)
(* when that is short.                                                       *)
Less(w, i, j) == Len(w[i]) > Len(w[j]) \/ (Len(w[i]) = Len(w[j]) /\ i > j)
LongFirst(w) == LET pos(i) == 1 + Cardinality({j \in 1..Len(w) : Less(w, j, i)})
                IN [n \in 1..Len(w) |-> w[CHOOSE i \in 1..Len(w) : pos(i) = n]]
RECURSIVE AddWords(_, _)
AddWords(key, w) == IF w = <<>> \/ Len(key) >= 35 THEN key ELSE AddWords(key \o "-" \o Title(w[1]), SubSeq(w, 2, Len(w)))
NiceKey(author, year, month, title, id) ==
    LET a == Replace(Replace(Replace(Title(author), " ", ""), ",", ""), ".", "")
        b == a \o (IF year = "" THEN "" ELSE "-" \o year) \o (IF month = "" THEN "" ELSE "-" \o month)
        w == LongFirst(Split(title, " "))
        c == IF title = "" THEN b ELSE AddWords(b \o "-" \o Title(w[1]), SubSeq(w, 2, Len(w)))
    IN IF Len(c) < 30 THEN c \o id ELSE c
=============================================================================
