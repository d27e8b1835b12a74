------------------------------- MODULE MKTags -------------------------------
(***************************************************************************)
(* Counting field values: one-, two-, multi-mode and multi-level networks, *)
(* ranked series, time series and co-occurrence tables.                    *)
(*                                                                         *)
(* Values are tagged texts ("s:abc", "i:1999"); a record is a function     *)
(* from field to the sequence of its values (<<>> when it lacks it).       *)
(* A network is a bag of nodes and a bag of arcs: every way of counting is *)
(* given by the sequence of arcs each record contributes, and by a closed  *)
(* form for the number of arcs between two nodes.                          *)
(***************************************************************************)
EXTENDS MKText, MKCommon

Stem(v, how) == CASE how = "none" -> v [] how = "lower" -> Lower(v) [] how = "first" -> Upto(v, 1)
\* the node a value becomes: its text
NodeOf(v, how) == "s:" \o Stem(From(v, 3), how)
Row(r, f, how) == [i \in 1..Len(r[f]) |-> NodeOf(r[f][i], how)]

(*---- rows: for each record, the sequence (one per chosen field) of node sequences ----*)
LevelRow(row) == FlattenSeqs(row)
\* arcs of one record as a sequence of <<x, y>>
LevelArcs(row) == LET q == LevelRow(row) IN FlattenSeqs([i \in 1..Len(q) |-> [j \in 1..(Len(q) - i) |-> <<q[i], q[i + j]>>]])
BetweenArcs(A, B) == FlattenSeqs([i \in 1..Len(A) |-> [j \in 1..Len(B) |-> <<A[i], B[j]>>]])
ModeArcs(row) == FlattenSeqs([i \in 1..Len(row) |-> FlattenSeqs([k \in 1..(Len(row) - i) |-> BetweenArcs(row[i], row[i + k])])])

\* closed forms: number of ordered arcs <<x, y>> of a record
LevelCount(row, x, y) == LET q == LevelRow(row) IN   \* unordered: pairs of positions
    IF x = y THEN (Occ(q, x) * (Occ(q, x) - 1)) \div 2 ELSE Occ(q, x) * Occ(q, y)
RECURSIVE ModeCountFrom(_, _, _, _)
ModeCountFrom(row, i, x, y) == IF i >= Len(row) THEN 0
    ELSE Occ(row[i], x) * SumSeq([k \in 1..(Len(row) - i) |-> Occ(row[i + k], y)]) + ModeCountFrom(row, i + 1, x, y)
ModeCount(row, x, y) == ModeCountFrom(row, 1, x, y)
ModeCountU(row, x, y) == ModeCount(row, x, y) + (IF x = y THEN 0 ELSE ModeCount(row, y, x))

NodeCount(rows, x) == SumSeq([i \in 1..Len(rows) |-> Occ(LevelRow(rows[i]), x)])
NodesOf(rows) == UNION {SeqRange(LevelRow(rows[i])) : i \in 1..Len(rows)}

(*------------------------------- series --------------------------------*)
ValCount(S, f, v) == SumSeq([i \in 1..Len(S) |-> Occ(S[i][f], v)])
ValsOf(S, f, lim) == {v \in UNION {SeqRange(S[i][f]) : i \in 1..Len(S)} : lim = {} \/ v \in lim}
\* dense rank: one more than the number of greater counts
RankOf(S, f, lim, v) == 1 + Cardinality({ValCount(S, f, u) : u \in {u \in ValsOf(S, f, lim) : ValCount(S, f, u) > ValCount(S, f, v)}})
\* occurrences in a year: S restricted to records having the year (tagged "i:...")
InYear(S, y) == SelectSeq(S, LAMBDA r : r.year = <<y>>)
YearCount(S, f, v, y) == ValCount(InYear(S, y), f, v)
TimePairs(S, f, lim) == UNION {{<<v, S[i].year[1]>> : v \in {u \in SeqRange(S[i][f]) : lim = {} \/ u \in lim}} :
                               i \in {j \in 1..Len(S) : S[j].year # <<>>}}
CoOcc(S, key, fs, k, v) == SumSeq([i \in 1..Len(S) |-> Occ(S[i][key], k) * SumSeq([j \in 1..Len(fs) |-> Occ(S[i][fs[j]], v)])])
CoOccPairs(S, key, fs) == UNION {SeqRange(S[i][key]) \X UNION {SeqRange(S[i][fs[j]]) : j \in 1..Len(fs)} : i \in 1..Len(S)}
=============================================================================
