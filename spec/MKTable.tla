------------------------------- MODULE MKTable -------------------------------
(***************************************************************************)
(* Tables of records.  Which columns a table has, given the tags asked for *)
(* first and the only tags asked for, and to which files a record goes     *)
(* when the table is split by the values of a tag.                         *)
(***************************************************************************)
EXTENDS MKText, FiniteSets
CONSTANT TagPairs      \* short tags and their long names, <<short, long>>

ShortOf(n) == IF \E p \in TagPairs : p[2] = n THEN (CHOOSE p \in TagPairs : p[2] = n)[1] ELSE n
IsShort(t) == \E p \in TagPairs : p[1] = t
LongOf(t) == IF IsShort(t) THEN (CHOOSE p \in TagPairs : p[1] = t)[2] ELSE t
Shorts(q) == [i \in 1..Len(q) |-> ShortOf(q[i])]
InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x

\* the columns asked for, in their order: those asked for first come first
Columns(first, only) ==
    LET f == Shorts(first) o == Shorts(only)
    IN SelectSeq(f, LAMBDA t : InSeq(t, o)) \o SelectSeq(o, LAMBDA t : ~InSeq(t, f))
\* without a choice: those asked for first, and then every stored tag once in any order
AllColumns(first, stored, got) ==
    LET f == Shorts(first)
        n == Len(f)
        rest == {got[i] : i \in (n + 1)..Len(got)}
    IN /\ Len(got) >= n /\ SubSeq(got, 1, n) = f
       /\ rest = {t \in stored : ~InSeq(t, f)} /\ Cardinality(rest) = Len(got) - n

\* the name under which a column was asked for
AskedAs(c, names) == IF \E i \in 1..Len(names) : names[i] # c /\ ShortOf(names[i]) = c
                     THEN names[CHOOSE i \in 1..Len(names) : names[i] # c /\ ShortOf(names[i]) = c] ELSE c

\* names of the files of a split table
Slashes(s) == Replace(s, "/", "_")
FileOf(v, base) == Slashes(Upto(v, 200)) \o "-" \o base
FilesOf(vals, base) == {FileOf(vals[i], base) : i \in 1..Len(vals)}

\* equal as bags
Occurs(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameRows(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Occurs(p[i], p) = Occurs(p[i], q)
==============================================================================
