-------------------------------- MODULE MKCsv --------------------------------
(***************************************************************************)
(* Comma separated tables as text: writing rows of cells, and the reader as *)
(* an automaton over the characters.                                        *)
(***************************************************************************)
EXTENDS MKText, MKCommon
Q == "\""
NeedsQuote(c) == Contains(c, ",") \/ Contains(c, Q) \/ Contains(c, "\n") \/ Contains(c, "\r")
Quoted(c) == Q \o Replace(c, Q, Q \o Q) \o Q
\* a row may quote any cell it likes; all is TRUE when it quotes every cell
RenderRow(row, all) == Join([i \in 1..Len(row) |-> IF all \/ NeedsQuote(row[i]) \/ (Len(row) = 1 /\ row[1] = "") THEN Quoted(row[i]) ELSE row[i]], ",")
Render(rows, all, eol) == Concat([i \in 1..Len(rows) |-> RenderRow(rows[i], all) \o eol])

\* Character by character.  st: "start" of a cell, "plain", "quoted", "quote" (a quote seen inside quotes).
\* Whole runs of ordinary characters are taken at once.  D separates cells, U quotes them.
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(D, U, s, i, st, cell, row, rows) ==
    IF i > Len(s) THEN IF st = "start" /\ row = <<>> THEN rows ELSE Append(rows, Append(row, cell))
    ELSE LET c == Ch(s, i) IN
      IF st = "quoted" THEN
          IF c = U THEN Scan(D, U, s, i + 1, "quote", cell, row, rows)
          ELSE LET n == RunOut(s, i, {U}) IN Scan(D, U, s, i + n, "quoted", cell \o SubSeq(s, i, i + n - 1), row, rows)
      ELSE IF c = U /\ st = "quote" THEN Scan(D, U, s, i + 1, "quoted", cell \o U, row, rows)
      ELSE IF c = U /\ st = "start" THEN Scan(D, U, s, i + 1, "quoted", cell, row, rows)
      ELSE IF c = D THEN Scan(D, U, s, i + 1, "start", "", Append(row, cell), rows)
      ELSE IF c \in {"\n", "\r"} THEN
          LET j == IF c = "\r" /\ i < Len(s) /\ Ch(s, i + 1) = "\n" THEN i + 2 ELSE i + 1
          IN IF st = "start" /\ row = <<>> THEN Scan(D, U, s, j, "start", "", <<>>, rows)     \* an empty line is no row
             ELSE Scan(D, U, s, j, "start", "", <<>>, Append(rows, Append(row, cell)))
      ELSE IF c = U THEN Scan(D, U, s, i + 1, "plain", cell \o U, row, rows)
      ELSE LET n == RunOut(s, i, {D, "\n", "\r", U}) IN Scan(D, U, s, i + n, "plain", cell \o SubSeq(s, i, i + n - 1), row, rows)
ParseWith(s, D, U) == Scan(D, U, s, 1, "start", "", <<>>, <<>>)
Parse(s) == ParseWith(s, ",", Q)
\* header and the rows as sequences padded to it
Header(t) == IF t = <<>> THEN <<>> ELSE t[1]
Body(t) == IF t = <<>> THEN <<>> ELSE SubSeq(t, 2, Len(t))
=============================================================================
