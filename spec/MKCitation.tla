----------------------------- MODULE MKCitation -----------------------------
(***************************************************************************)
(* Citations.  ParseWOS is the reading of a Web of Science citation string *)
(* as a left-to-right scan over six optional parts                         *)
(*    author, year, journal, V..., P..., DOI ...                           *)
(* and whatever cannot be placed becomes misc.  RenderWOS is the inverse:  *)
(* the text made of given parts.  MC_Citation checks that parsing a        *)
(* rendered citation gives back exactly its parts.                         *)
(* Absent text is "", an absent year is NoYear.                            *)
(***************************************************************************)
EXTENDS MKText

NoYear == 0 - 100000
YearText(y) == IF y < 0 THEN "-" \o ToString(0 - y) ELSE ToString(y)

\* one optional part of the scan: [v |-> matched text, has |-> matched?, n |-> next position]
Part(v, has, n) == [v |-> v, has |-> has, n |-> n]
OptSep(s, i) == IF StartsAt(s, ", ", i) THEN i + 2 ELSE i
AuthorPart(s, i) ==     \* a non-digit, non-comma character and at least one more before the comma
    LET k == RunOut(s, i, {","})
    IN IF k >= 2 /\ Ch(s, i) \notin DigitSet THEN Part(SubSeq(s, i, i + k - 1), TRUE, i + k) ELSE Part("", FALSE, i)
YearPart(s, i) ==
    LET sg == IF StartsAt(s, "-", i) THEN 1 ELSE 0
        d == RunIn(s, i + sg, DigitSet)
        k == IF d > 5 THEN 5 ELSE d
    IN IF k >= 1 THEN Part(SubSeq(s, i, i + sg + k - 1), TRUE, i + sg + k) ELSE Part("", FALSE, i)
JournalPart(s, i) ==
    LET k == RunOut(s, i, {","}) IN IF k >= 1 THEN Part(SubSeq(s, i, i + k - 1), TRUE, i + k) ELSE Part("", FALSE, i)
MarkedPart(s, i, m) ==  \* ", V..." or ", P..."
    IF StartsAt(s, ", " \o m, i)
    THEN LET k == RunOut(s, i + 3, {","}) IN IF k >= 1 THEN Part(SubSeq(s, i + 2, i + 2 + k), TRUE, i + 3 + k) ELSE Part("", FALSE, i)
    ELSE Part("", FALSE, i)
\* the end: nothing, a DOI, or text that cannot be placed (possibly followed by a DOI)
TailPart(s, i) ==
    IF i > Len(s) THEN [misc |-> "", doi |-> "", rest |-> FALSE]
    ELSE IF StartsAt(s, ", DOI ", i) /\ i + 6 <= Len(s) THEN [misc |-> "", doi |-> From(s, i + 6), rest |-> FALSE]
    ELSE LET j0 == OptSep(s, i)
             j == IF j0 > Len(s) THEN i ELSE j0     \* the remaining text is never empty
             k == FindFrom(s, ", DOI ", j + 1)
         IN IF k > 0 /\ k + 6 <= Len(s) THEN [misc |-> SubSeq(s, j, k - 1), doi |-> From(s, k + 6), rest |-> TRUE]
            ELSE [misc |-> From(s, j), doi |-> "", rest |-> TRUE]

Ident(a, ha, y, j, hj, ok) ==
    IF ok THEN a \o ", " \o YearText(y) \o ", " \o j
    ELSE Join((IF ha /\ a # "" THEN <<a>> ELSE <<>>) \o (IF y # NoYear /\ y # 0 THEN <<YearText(y)>> ELSE <<>>)
              \o (IF hj THEN <<j>> ELSE <<>>), ", ")

ParseWOS(text) ==
    LET s == Upper(text)
        a == AuthorPart(s, 1)
        y == YearPart(s, OptSep(s, a.n))
        j == JournalPart(s, OptSep(s, y.n))
        v == MarkedPart(s, j.n, "V")
        p == MarkedPart(s, v.n, "P")
        t == TailPart(s, p.n)
        au == Title(Replace(a.v, ".", ""))
        yr == IF y.has THEN IntOf(y.v) ELSE NoYear
        ok == a.has /\ y.has /\ j.has /\ ~t.rest
    IN [author |-> au, hasA |-> a.has, year |-> yr, journal |-> j.v, V |-> v.v, P |-> p.v,
        DOI |-> t.doi, misc |-> t.misc, bad |-> ~ok,
        id |-> Ident(au, a.has, yr, j.v, j.has, ok),
        anon |-> a.has /\ au = "[Anonymous]", original |-> text]

\* everything but the DOI, and everything but the identity
AllButDOI(c) == Join(<<c.id>> \o (IF c.V # "" THEN <<c.V>> ELSE <<>>) \o (IF c.P # "" THEN <<c.P>> ELSE <<>>)
                     \o (IF c.misc # "" THEN <<c.misc>> ELSE <<>>), ", ")
ExtraOf(c) == Join((IF c.V # "" THEN <<c.V>> ELSE <<>>) \o (IF c.P # "" THEN <<c.P>> ELSE <<>>)
                   \o (IF c.DOI # "" THEN <<c.DOI>> ELSE <<>>) \o (IF c.misc # "" THEN <<c.misc>> ELSE <<>>), ", ")

SameWork(c, d) == c.id = d.id

\* the text made of given parts ("" = absent, NoYear = absent)
RenderWOS(p) == Join((IF p.author # "" THEN <<p.author>> ELSE <<>>) \o (IF p.year # NoYear THEN <<YearText(p.year)>> ELSE <<>>)
                     \o (IF p.journal # "" THEN <<p.journal>> ELSE <<>>) \o (IF p.V # "" THEN <<p.V>> ELSE <<>>)
                     \o (IF p.P # "" THEN <<p.P>> ELSE <<>>) \o (IF p.misc # "" THEN <<p.misc>> ELSE <<>>)
                     \o (IF p.DOI # "" THEN <<"DOI " \o p.DOI>> ELSE <<>>), ", ")

\* Scopus: first author, further authors, title, (year), journal, volume (issue), pages, rest
RenderScopus(p) == p.author \o ", " \o p.extra \o (IF p.title # "" THEN p.title \o " " ELSE "")
                   \o "(" \o ToString(p.year) \o ") " \o p.journal
                   \o (IF p.V # "" THEN ", " \o p.V \o (IF p.issue # "" THEN " (" \o p.issue \o ")" ELSE "") ELSE "")
                   \o (IF p.P # "" THEN ", pp. " \o p.P ELSE "")
ScopusFields(p) == [author |-> Upper(p.author), year |-> p.year, journal |-> Upper(p.journal), V |-> Upper(p.V),
                    issue |-> Upper(p.issue), P |-> Upper(p.P), bad |-> FALSE,
                    id |-> Upper(p.author) \o ", " \o ToString(p.year) \o ", " \o Upper(p.journal)]
ScopusExtra(f) == Join((IF f.V # "" THEN <<f.V>> ELSE <<>>) \o (IF f.P # "" THEN <<f.P>> ELSE <<>>), ", ")
=============================================================================
