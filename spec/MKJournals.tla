------------------------------ MODULE MKJournals ------------------------------
(***************************************************************************)
(* The journal abbreviations: the listing w downloaded from WOS, the        *)
(* additions and exclusions m made by hand, which come before it, and the   *)
(* dictionary d that the citations of one session loaded on first use.      *)
(* A dictionary maps abbreviations to sequences of names; an abbreviation   *)
(* with the one name "" is excluded.                                        *)
(***************************************************************************)
EXTENDS MKText, MKCommon
Nil == [x \in {} |-> <<>>]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
One(a, names) == [x \in {a} |-> names]
Excluded == <<"">>

\* a sequence of <<abbreviation, names as one text>>
RECURSIVE PutAll(_, _)
PutAll(m, pairs) == IF pairs = <<>> THEN m ELSE PutAll(Over(m, One(pairs[1][1], Split(pairs[1][2], "|"))), SubSeq(pairs, 2, Len(pairs)))
\* the listing, a sequence of <<abbreviation, name>>, taken into w: what is there stays, new names follow
AddName(w, a, n) == IF a \notin DOMAIN w THEN Over(w, One(a, <<n>>)) ELSE IF \E i \in 1..Len(w[a]) : w[a][i] = n THEN w ELSE Over(w, One(a, Append(w[a], n)))
RECURSIVE Listing(_, _)
Listing(w, pages) == IF pages = <<>> THEN w ELSE Listing(AddName(w, pages[1][1], pages[1][2]), SubSeq(pages, 2, Len(pages)))

Both(w, m) == Over(w, m)
Known(d, a) == a \in DOMAIN d
IsJournal(d, a) == Known(d, a) /\ d[a][1] # ""
IsExcluded(d, a) == Known(d, a) /\ d[a][1] = ""
NoName == "-"
FullName(d, a) == IF IsJournal(d, a) THEN d[a][1] ELSE NoName
===============================================================================
