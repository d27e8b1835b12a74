------------------------------ MODULE MKGlimpse ------------------------------
(***************************************************************************)
(* The summary of a collection that is printed to the terminal.             *)
(*                                                                         *)
(* A column is [title, vals]; vals is the set of <<value, count>> of a tag.  *)
(* Values of the same count share a rank, and ranks have no gaps.            *)
(* The compact table is as wide as the terminal and leaves the last line of  *)
(* it; the plain list shows half as many values, each on a line.             *)
(***************************************************************************)
EXTENDS MKCommon, MKText, TLC

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN c ELSE Rep(c, n \div 2) \o Rep(c, n - (n \div 2))
LeftIn(s, n, c) == s \o Rep(c, n - Len(s))
RightIn(s, n, c) == Rep(c, n - Len(s)) \o s
\* the shorter half of the filling comes first
MidIn(s, n, c) == LET f == Max2(n - Len(s), 0) IN Rep(c, f \div 2) \o s \o Rep(c, f - (f \div 2))

Width(w) == IF w < 55 THEN 80 ELSE w
About == "Columns are ranked by num. of occurrences"
About2 == "and are independent of one another"
Long == About \o " " \o About2
\* a terminal too small for anything counts as one of the usual size
Height(w, h) == IF h < (IF Len(Long) > w THEN 7 ELSE 6) THEN 24 ELSE h
Rows(w, h) == h - (IF Len(Long) > w THEN 7 ELSE 6)

RankOf(col, x) == Cardinality({y[2] : y \in {z \in col.vals : z[2] > x[2]}}) + 1
\* the rank of the i-th value from the top
RankAt(col, i) == LET R == {RankOf(col, x) : x \in col.vals}
                      upto(k) == Cardinality({x \in col.vals : RankOf(col, x) <= k})
                  IN CHOOSE k \in R : upto(k) >= i /\ \A j \in R : upto(j) >= i => k <= j
Shown(col, n) == Min2(Cardinality(col.vals), n)

\* widths of the columns of the compact table: together with the bars as wide as the terminal
ColWidth(w, n, j) == LET base == (w \div n) - 1  spare == (w % n) - 1 IN base + (IF spare < 0 THEN (IF j = 1 THEN 0 - 1 ELSE 0) ELSE IF j <= spare THEN 1 ELSE 0)
Cell(text, rank, w) == LET k == LeftIn(ToString(rank), 2, " ")  left == w - Len(k)
                       IN k \o (IF Len(text) <= left THEN RightIn(text, left, " ") ELSE Upto(text, left - 1) \o ".")
Plain(text, rank, w) == LET k == ToString(rank) IN k \o " " \o Upto(text, w - Len(k) - 1)
Heading(title, w) == MidIn(Upto(title, w), w, "-")

\* is `got` the cells of a column, best first, where n fit?
Good(col, got, n, f(_, _)) ==
    LET m == Shown(col, n)
        have == {x[2] : x \in col.vals}
        place == TLCEval([c \in have |-> Cardinality({d \in have : d > c}) + 1])
        upto == TLCEval([c \in have |-> Cardinality({x \in col.vals : x[2] >= c})])
        \* the count of the i-th value from the top
        count == TLCEval([i \in 1..m |-> CHOOSE c \in have : upto[c] >= i /\ \A d \in have : d > c => upto[d] < i])
        cell == TLCEval([x \in {y \in col.vals : m > 0 /\ y[2] >= count[m]} |-> <<place[x[2]], f(x[1], place[x[2]])>>])
        all == {cell[x] : x \in DOMAIN cell}
    IN /\ Len(got) = m
       /\ \A i \in 1..m : <<place[count[i]], got[i]>> \in all
       /\ \A i \in 1..m : Cardinality({j \in 1..m : got[j] = got[i] /\ count[j] = count[i]}) <= Cardinality({x \in DOMAIN cell : cell[x] = <<place[count[i]], got[i]>>})
=============================================================================
