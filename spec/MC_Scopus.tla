------------------------------- MODULE MC_Scopus -------------------------------
(* Rows of three cells over a small alphabet, grown character by character.     *)
EXTENDS MKScopus, Json
CONSTANTS MaxLen
Cols == <<"A", "EID", "B">>
Alphabet == <<"a", ",", Q, " ">>
VARIABLES cells
Init == cells = <<"", "", "">>
Next == /\ Len(cells[1]) + Len(cells[2]) + Len(cells[3]) < MaxLen
        /\ \E i \in 1..3, j \in 1..4 : cells' = [cells EXCEPT ![i] = @ \o Alphabet[j]]
Spec == Init /\ [][Next]_cells
Rows == {RenderRow(cells, TRUE), RenderRow(cells, FALSE)}
Emit == \A s \in Rows : PrintT("R " \o ToJson([row |-> s]))
SpecEmit == Spec      \* with Emit as a constraint: once per state
Wanted == {[c |-> Cols[i], x |-> RawCell(cells[i])] : i \in {j \in 1..3 : cells[j] # ""}}
\* however it is quoted, a row gives back its own cells, and writing the record gives the same record
Faithful == \A s \in Rows : /\ FieldsOf(Cols, s) = Wanted
                            /\ IsRecord(Cols, s) <=> cells[2] # ""
RoundTrip == \A s \in Rows : FieldsOf(Cols, RowOf(Cols, FieldsOf(Cols, s))) = Wanted
\* under a permuted header the same file gives the same values under the same names
Permuted == \A s \in {RenderRow(<<cells[3], cells[1], cells[2]>>, TRUE)} : FieldsOf(<<"B", "A", "EID">>, s) = Wanted
=============================================================================
