------------------------------ MODULE MKGenders ------------------------------
(***************************************************************************)
(* Genders of authors.  The name table is a function from given names, in  *)
(* title case, to genders.  The first given name of "Last, First M." is    *)
(* First; a name without ", " has none.                                    *)
(***************************************************************************)
EXTENDS MKText, FiniteSets
Unknown == "Unknown"
Genders == <<"Male", "Female", Unknown>>
HasGiven(name) == Contains(name, ", ")
Given(name) == Title(Split(Split(name, ", ")[2], " ")[1])
GenderOf(name, table) == IF HasGiven(name) /\ Given(name) \in DOMAIN table THEN table[Given(name)] ELSE Unknown
\* the genders of the authors of a record, by name
Assign(authors, table) == [a \in {authors[i] : i \in 1..Len(authors)} |-> GenderOf(a, table)]
Count(authors, table, g) == Cardinality({a \in {authors[i] : i \in 1..Len(authors)} : GenderOf(a, table) = g})
Counts(authors, table) == [i \in 1..3 |-> Count(authors, table, Genders[i])]
==============================================================================
