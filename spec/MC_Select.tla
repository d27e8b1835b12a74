------------------------------ MODULE MC_Select ------------------------------
(* Every small collection over a few kinds of records: laws of the selections, *)
(* and every (collection, selection) pair printed as a conformance case.      *)
EXTENDS MKSelect, Json
CONSTANTS Ids, NoneKinds
T1 == "Smith J, 1999, NATURE, V1, P2, DOI 10.1/x"
T2 == "SMITH J, 1999, NATURE, V7"
T3 == "[Anonymous], 2000, J APPL PHYS, V12, P34, ARTN 9"
T4 == "lee k, nature"
Kinds == <<[year |-> 1999, pt |-> "J", bad |-> FALSE, c |-> <<T1>>],
           [year |-> 2000, pt |-> "J", bad |-> FALSE, c |-> <<T3, T2>>],
           [year |-> 2001, pt |-> "B", bad |-> FALSE, c |-> <<>>],
           [year |-> NoYear, pt |-> "J", bad |-> FALSE, c |-> <<T4>>],
           [year |-> 2000, pt |-> "", bad |-> FALSE, c |-> <<T3, T4, T1>>],
           [year |-> 1999, pt |-> "B", bad |-> TRUE, c |-> <<T2>>]>>
Keys == {<<"nature", "all", FALSE>>, <<"nature", "all", TRUE>>, <<"NATURE", "all", TRUE>>, <<"", "all", FALSE>>, <<"1999, n", "all", FALSE>>,
         <<"smith", "author", FALSE>>, <<"lee k", "author", TRUE>>, <<"", "author", FALSE>>, <<"appl", "journal", FALSE>>, <<"", "journal", FALSE>>,
         <<"1999", "year", FALSE>>, <<"", "year", FALSE>>, <<"2005", "year", FALSE>>, <<"v1", "V", FALSE>>, <<"V12", "V", FALSE>>, <<"", "V", FALSE>>,
         <<"p2", "P", FALSE>>, <<"", "P", FALSE>>, <<"9", "misc", FALSE>>, <<"", "misc", FALSE>>, <<"", "anonymous", FALSE>>, <<"", "bad", FALSE>>}
VARIABLES kind, op
vars == <<kind, op>>
Rec(i) == [id |-> i, year |-> Kinds[kind[i]].year, pt |-> Kinds[kind[i]].pt, bad |-> Kinds[kind[i]].bad,
           cites |-> [j \in 1..Len(Kinds[kind[i]].c) |-> ParseWOS(Kinds[kind[i]].c[j])]]
S == {Rec(i) : i \in {j \in Ids : kind[j] > 0}}
Init == kind \in [Ids -> NoneKinds..Len(Kinds)] /\ op = [op |-> "none"]
Choose == /\ op.op = "none" /\ UNCHANGED kind
          /\ \/ \E n \in 0..4, o \in {"chunk", "split"} : op' = [op |-> o, n |-> n]
             \/ \E lo, hi \in 1998..2001, d \in BOOLEAN : op' = [op |-> "year", lo |-> lo, hi |-> hi, drop |-> d]
             \/ \E pt \in {"J", "j", "B", "X"}, d, v \in BOOLEAN : op' = [op |-> "journals", pt |-> pt, drop |-> d, invert |-> v]
             \/ \E k \in Keys, v \in BOOLEAN : op' = [op |-> "filter", key |-> k[1], field |-> k[2], cs |-> k[3], reverse |-> v]
             \/ \E t \in {T1, T2, T3, T4, "Nobody, 1900, X"} : op' = [op |-> "citesof", text |-> t]
             \/ \E o \in {"badentries", "dropbad"} : op' = [op |-> o]
Next == Choose
Spec == Init /\ [][Next]_vars
NextEmit == Choose /\ PrintT("T " \o ToJson([kinds |-> [i \in Ids |-> kind[i]], o |-> op']))
SpecEmit == Init /\ [][NextEmit]_vars

YearLaw == op.op = "year" /\ op.lo <= op.hi =>
    \A m \in op.lo..op.hi : YearSplit(S, op.lo, op.hi) = YearSplit(S, op.lo, m) \cup YearSplit(S, m + 1, op.hi)
YearEmpty == op.op = "year" /\ op.lo > op.hi => YearSplit(S, op.lo, op.hi) = {}
FilterLaw == op.op = "filter" =>
    LET A == CiteFilter(S, op.key, op.field, FALSE, op.cs)
        B == CiteFilter(S, op.key, op.field, TRUE, op.cs)
    IN A \cup B = S /\ A \cap B = {} /\ (op.key = "" \/ A \subseteq CiteFilter(S, "", op.field, FALSE, op.cs))
CaseLaw == op.op = "filter" /\ op.field = "all" =>
    CiteFilter(S, op.key, "all", FALSE, TRUE) \subseteq CiteFilter(S, op.key, "all", FALSE, FALSE)
JournalLaw == op.op = "journals" =>
    Journals(S, op.pt, op.drop, TRUE) \cup Journals(S, op.pt, op.drop, FALSE) = (IF op.drop THEN S \ BadOnes(S) ELSE S)
=============================================================================
