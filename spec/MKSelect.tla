------------------------------ MODULE MKSelect ------------------------------
(***************************************************************************)
(* Selecting, splitting and filtering collections.  An abstract record is  *)
(* [id, year, pt, bad, cites, own]: year is NoYear when missing, pt is ""  *)
(* when missing, cites is a sequence of parsed citations (MKCitation) and  *)
(* own the parsed citation other records would use for it.  A collection   *)
(* is a set of such records.                                               *)
(***************************************************************************)
EXTENDS MKCitation, MKCommon

Pieces(k, n) == LET m == IF n < 1 THEN 1 ELSE n IN (k + m - 1) \div m
\* pieces: sequence of sets of records, must partition S into full pieces and one rest
IsPartition(S, pieces, n) ==
    LET m == IF n < 1 THEN 1 ELSE n
    IN /\ Len(pieces) = Pieces(Cardinality(S), n)
       /\ UNION {pieces[i] : i \in 1..Len(pieces)} = S
       /\ \A i \in 1..Len(pieces) : Cardinality(pieces[i]) <= m /\ pieces[i] # {}
       /\ \A i, j \in 1..Len(pieces) : i # j => pieces[i] \cap pieces[j] = {}

YearSplit(S, lo, hi) == {r \in S : r.year # NoYear /\ lo <= r.year /\ r.year <= hi}
AnyYearMissing(S) == \E r \in S : r.year = NoYear

Journals(S, pt, dropBad, invert) ==
    {r \in S : /\ (dropBad => ~r.bad)
               /\ IF invert THEN r.pt # Upper(pt) ELSE r.pt = Upper(pt)}

CiteMatches(c, key, field, cs) ==
    CASE field = "all" -> IF cs THEN Contains(c.original, key) ELSE Contains(Upper(c.original), Upper(key))
      [] field = "author" -> c.hasA /\ Contains(Upper(c.author), Upper(key))
      [] field = "journal" -> c.journal # "" /\ Contains(c.journal, Upper(key))
      [] field = "year" -> c.year # NoYear /\ (key = "" \/ key = YearText(c.year))
      [] field = "V" -> c.V # "" /\ Contains(c.V, Upper(key))
      [] field = "P" -> c.P # "" /\ Contains(c.P, Upper(key))
      [] field = "misc" -> c.misc # "" /\ Contains(c.misc, Upper(key))
      [] field = "anonymous" -> c.anon
      [] field = "bad" -> c.bad
CiteFilter(S, key, field, reverse, cs) ==
    {r \in S : (\E i \in 1..Len(r.cites) : CiteMatches(r.cites[i], key, field, cs)) # reverse}

CitesOf(S, c) == {r \in S : \E i \in 1..Len(r.cites) : SameWork(r.cites[i], c)}
BadOnes(S) == {r \in S : r.bad}
=============================================================================
