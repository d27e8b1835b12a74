-------------------------------- MODULE MC_Csv --------------------------------
(* Reading what was written gives the rows back, whatever the cells hold.       *)
EXTENDS MKCsv
CONSTANTS MaxLen
VARIABLES rows
Alphabet == {"a", ",", Q, "\n", "\r", " "}
Grow(r) == {[r EXCEPT ![Len(r)] = [@ EXCEPT ![Len(@)] = @ \o c]] : c \in Alphabet}
Init == rows = <<<<"">>>>
Total == SumSeq([i \in 1..Len(rows) |-> 1 + SumSeq([j \in 1..Len(rows[i]) |-> 1 + Len(rows[i][j])])])
Next == /\ Total < MaxLen
        /\ \/ rows' \in Grow(rows)
           \/ rows' = [rows EXCEPT ![Len(rows)] = Append(@, "")]
           \/ rows' = Append(rows, <<"">>)
Spec == Init /\ [][Next]_rows
RoundTrip == \A all \in BOOLEAN : \A eol \in {"\n", "\r\n"} : Parse(Render(rows, all, eol)) = rows
=============================================================================
