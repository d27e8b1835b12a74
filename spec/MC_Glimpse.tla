----------------------------- MODULE MC_Glimpse -----------------------------
(***************************************************************************)
(* Small columns shown value by value.  Design "gaps" numbers the places     *)
(* instead of ranking the counts, "wide" forgets the width of the rank,      *)
(* "late" starts with a value that is not among the most frequent.           *)
(***************************************************************************)
EXTENDS MKGlimpse, TLC, Json
CONSTANTS Counts, Widths, Design
VARIABLES col, w, n, got
vars == <<col, w, n, got>>
Texts == {"a", "bbb", "cc cc", "bbc"}
Init == /\ \E S \in SUBSET Texts : \E f \in [S -> Counts] : col = [title |-> "t", vals |-> {<<x, f[x]>> : x \in S}]
        /\ w \in Widths /\ n \in 1..3 /\ got = <<>>
Left == {x \in col.vals : \A i \in 1..Len(got) : got[i].x # x}
Mine(x) == IF Design = "gaps" THEN Len(got) + 1 ELSE RankOf(col, x)
Show(x) == [x |-> x, c |-> IF Design = "wide" THEN LeftIn(ToString(Mine(x)), 2, " ") \o RightIn(Upto(x[1], w - 1), w - 1, " ") ELSE Cell(x[1], Mine(x), w)]
Next == /\ Len(got) < n
        /\ \E x \in Left : /\ Design = "late" \/ \A y \in Left : y[2] <= x[2]
                           /\ got' = Append(got, Show(x))
        /\ UNCHANGED <<col, w, n>>
Spec == Init /\ [][Next]_vars
Cells == [i \in 1..Len(got) |-> got[i].c]
Done == Len(got) = Shown(col, n)
\* a table made value by value from the top is the one described, and fits
Right == Done => Good(col, Cells, n, LAMBDA t, r : Cell(t, r, w))
Fits == \A i \in 1..Len(got) : Len(got[i].c) = w
NoGap == \A i \in 1..Len(got) : RankAt(col, i) - (IF i = 1 THEN 0 ELSE RankAt(col, i - 1)) \in {0, 1}
Table == \A k \in 1..6 : \A t \in 55..70 : SumSeq([j \in 1..k |-> ColWidth(t, k, j)]) + k + 1 = t
=============================================================================
