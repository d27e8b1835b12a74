------------------------------- MODULE MKScopus -------------------------------
(***************************************************************************)
(* Scopus exports: a header of column names and one row of cells a line.   *)
(* A record holds the non-empty cells under their column names, the text   *)
(* as it stands in the file (quotes inside a cell stay doubled).           *)
(***************************************************************************)
EXTENDS MKCsv
RawCell(c) == Replace(c, Q, Q \o Q)
\* the cells of one row, <<>> when the text is not one row
CellsOf(s) == LET t == Parse(s) IN IF Len(t) = 1 THEN t[1] ELSE <<>>
CellsOk(h, c) == Len(c) = Len(h) /\ \E i \in 1..Len(h) : h[i] = "EID" /\ c[i] # ""
FieldsFrom(h, c) == {[c |-> h[i], x |-> RawCell(c[i])] : i \in {j \in 1..Len(h) : c[j] # ""}}
IsRecord(h, s) == CellsOk(h, CellsOf(s))
FieldsOf(h, s) == FieldsFrom(h, CellsOf(s))
ValueOf(F, k) == LET S == {f \in F : f.c = k} IN IF S = {} THEN "" ELSE (CHOOSE f \in S : TRUE).x
IdOf(F) == ValueOf(F, "EID")
\* reading the rows after the header, numbered from 2: the records and whether some row is none
ReadRows(h, ls) == LET cs == TLCEval([i \in 1..Len(ls) |-> TLCEval(CellsOf(ls[i]))])
                   IN [recs |-> {[f |-> FieldsFrom(h, cs[i]), at |-> i + 1] : i \in {j \in 1..Len(ls) : CellsOk(h, cs[j])}},
                       damage |-> \E i \in 1..Len(ls) : ~CellsOk(h, cs[i])]
\* a row for a record: every cell quoted
RowOf(h, F) == Join([i \in 1..Len(h) |-> Q \o ValueOf(F, h[i]) \o Q], ",")
=============================================================================
