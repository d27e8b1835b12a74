------------------------------ MODULE MC_Genders ------------------------------
(* Collections of records with few author names, under every table of two names. *)
EXTENDS MKGenders, TLC
CONSTANTS MaxAuthors, PerPosition
Names == {"Lee, Ann", "LEE, ANN B", "Oh, ann-lu", "Li, A.", "Wu", "Su, "}
Lists == UNION {[1..n -> Names] : n \in 0..MaxAuthors}
Tables == UNION {[D -> {"Male", "Female", "Unknown"}] : D \in SUBSET {"Ann", "Ann-Lu"}}
VARIABLES authors, table
Init == authors \in Lists /\ table \in Tables
Next == FALSE /\ UNCHANGED <<authors, table>>
Spec == Init /\ [][Next]_<<authors, table>>
Distinct == {authors[i] : i \in 1..Len(authors)}
Sum(c) == c[1] + c[2] + c[3]
\* a design that counts positions instead of names
Total == IF PerPosition THEN Len(authors) ELSE Sum(Counts(authors, table))
EveryNameOnce == Total = Cardinality(Distinct)
Rev == [i \in 1..Len(authors) |-> authors[Len(authors) + 1 - i]]
OrderFree == Counts(Rev, table) = Counts(authors, table) /\ Assign(Rev, table) = Assign(authors, table)
NoNameNoGender == \A a \in Distinct : (~HasGiven(a) \/ Given(a) \notin DOMAIN table) => Assign(authors, table)[a] = Unknown
SameGiven == \A a, b \in Distinct : (HasGiven(a) /\ HasGiven(b) /\ Given(a) = Given(b)) => Assign(authors, table)[a] = Assign(authors, table)[b]
===============================================================================
