------------------------------ MODULE MKCiteStats ------------------------------
(***************************************************************************)
(* Statistics of the citations a collection makes.  A record is            *)
(*   [year, cites: sequence of the citations it makes]                     *)
(* and S a sequence of records.  Of a citation the statistics see id (its  *)
(* identity) and its fields year, author, journal.  An absent year is      *)
(* NoYear; every other absent field is the constant None.                  *)
(* The statistics are sums over S, so they never depend on the order of S. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoYear == 0 - 100000
None == "none"
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(f) == SumTo(f, Len(f))

\* the key a citation is counted under
KeyOf(c, type) == CASE type = "citation" -> c.id [] type = "year" -> c.year [] type = "author" -> c.author [] type = "journal" -> c.journal
Carries(c, type) == CASE type = "citation" -> TRUE [] type = "year" -> c.year # NoYear [] OTHER -> KeyOf(c, type) # None
Keys(S, type) == {KeyOf(S[p[1]].cites[p[2]], type) : p \in {q \in {<<i, j>> : i \in 1..Len(S), j \in 1..12} : q[2] <= Len(S[q[1]].cites) /\ Carries(S[q[1]].cites[q[2]], type)}}
CountIn(r, type, k) == Cardinality({j \in 1..Len(r.cites) : Carries(r.cites[j], type) /\ KeyOf(r.cites[j], type) = k})
Count(S, type, k) == SumSeq([i \in 1..Len(S) |-> CountIn(S[i], type, k)])
Total(S, type) == SumSeq([i \in 1..Len(S) |-> Cardinality({j \in 1..Len(S[i].cites) : Carries(S[i].cites[j], type)})])

(* Referenced publication year spectroscopy. A citation of a work that     *)
(* appeared more than two years after the record citing it is an error.    *)
Plausible(r, c) == c.year # NoYear /\ (r.year = NoYear \/ c.year <= r.year + 2)
CitedIn(S, y) == SumSeq([i \in 1..Len(S) |-> Cardinality({j \in 1..Len(S[i].cites) : Plausible(S[i], S[i].cites[j]) /\ S[i].cites[j].year = y})])
YearsSeen(S) == {y \in Keys(S, "year") : CitedIn(S, y) > 0}
Window(f(_), y) == <<f(y - 2), f(y - 1), f(y), f(y + 1), f(y + 2)>>
\* the middle of five numbers
Median5(w) == CHOOSE m \in {w[i] : i \in 1..5} :
    Cardinality({i \in 1..5 : w[i] < m}) <= 2 /\ Cardinality({i \in 1..5 : w[i] > m}) <= 2
Deviation(f(_), y) == f(y) - Median5(Window(f, y))
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
===============================================================================
