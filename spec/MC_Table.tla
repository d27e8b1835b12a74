------------------------------- MODULE MC_Table -------------------------------
(* A split table being written, record by record in any order, and the columns   *)
(* of all short lists of tags.                                                    *)
EXTENDS MKTable, TLC, Json
CONSTANTS MaxNames, RowPerValue
PairsM == {<<"TI", "title">>, <<"PY", "year">>, <<"AU", "authorsShort">>, <<"UT", "wosString">>}
Values == <<"x", "y/z", "y_z">>
Records == 1..3
ValuesOf == [r \in Records |-> CASE r = 1 -> <<"x", "x">> [] r = 2 -> <<"y/z", "x", "y_z">> [] r = 3 -> <<>>]
VARIABLES files, done, first, only
vars == <<files, done, first, only>>
Names == {"id", "TI", "title", "year", "UT"}
Lists == UNION {[1..n -> Names] : n \in 0..MaxNames}
NoRepeat(q) == \A i, j \in 1..Len(q) : i # j => ShortOf(q[i]) # ShortOf(q[j])
Init == /\ files = <<>> /\ done = {}
        /\ first \in {q \in Lists : NoRepeat(q)} /\ only \in {q \in Lists : NoRepeat(q)}
RowsFor(r, f) == IF RowPerValue THEN Cardinality({i \in 1..Len(ValuesOf[r]) : FileOf(ValuesOf[r][i], "b") = f}) ELSE 1
Write(r) == /\ r \notin done /\ done' = done \cup {r}
            /\ LET F == FilesOf(ValuesOf[r], "b")
                   Rep(n) == [i \in 1..n |-> r]
                   old(f) == IF f \in DOMAIN files THEN files[f] ELSE <<>>
               IN files' = [f \in F \cup DOMAIN files |-> IF f \in F THEN old(f) \o Rep(RowsFor(r, f)) ELSE files[f]]
            /\ UNCHANGED <<first, only>>
Next == first = <<>> /\ only = <<>> /\ \E r \in Records : Write(r)
Spec == Init /\ [][Next]_vars
\* every file has exactly the records of its values, each once
Exactly == \A f \in DOMAIN files : \A r \in Records :
    Occurs(r, files[f]) = IF r \in done /\ f \in FilesOf(ValuesOf[r], "b") THEN 1 ELSE 0
NoFileWithout == \A f \in DOMAIN files : files[f] # <<>>
\* exactly the columns asked for, each once, those asked for first in front and in their order
OnlyAsked == LET c == Columns(first, only) IN
    /\ {c[i] : i \in 1..Len(c)} = {ShortOf(only[i]) : i \in 1..Len(only)}
    /\ Len(c) = Len(only)
    /\ \A i, j \in 1..Len(c) : (i < j /\ InSeq(c[j], Shorts(first))) => InSeq(c[i], Shorts(first))
    /\ \A i, j \in 1..Len(first) : \A a, b \in 1..Len(c) :
          (i < j /\ c[a] = ShortOf(first[i]) /\ c[b] = ShortOf(first[j])) => a < b
LongBack == \A i \in 1..Len(first) : ShortOf(LongOf(ShortOf(first[i]))) = ShortOf(first[i])
Emit == done = {} => PrintT("L " \o ToJson([first |-> first, only |-> only]))
===============================================================================
