------------------------------ MODULE MC_CiteStats ------------------------------
(* Every collection of up to MaxRecs records over a pool of small records.      *)
EXTENDS MKCiteStats, TLC
CONSTANTS MaxRecs, CountOnce, OnlyInside
C(i, y, a, j) == [id |-> i, year |-> y, author |-> a, journal |-> j]
Works == <<C("w1", 1, "A", "J"), C("w2", 2, "A", "K"), C("w3", 3, None, "J"), C("w4", NoYear, "B", None), C("w5", 5, "B", "J")>>
Cites == {<<>>} \cup {<<Works[i]>> : i \in 1..5} \cup {<<Works[i], Works[j]>> : i, j \in 1..5}
Recs == [year : {1, 3, NoYear}, cites : Cites]
VARIABLES S
Init == S = <<>>
Next == Len(S) < MaxRecs /\ \E r \in Recs : S' = Append(S, r)
Spec == Init /\ [][Next]_S
Types == {"citation", "year", "author", "journal"}
\* a design that counts a work once per record
Count2(T, type, k) == IF CountOnce THEN SumSeq([i \in 1..Len(T) |-> IF CountIn(T[i], type, k) > 0 THEN 1 ELSE 0]) ELSE Count(T, type, k)
RECURSIVE SumOver(_, _)
SumOver(type, K) == IF K = {} THEN 0 ELSE LET k == CHOOSE x \in K : TRUE IN Count2(S, type, k) + SumOver(type, K \ {k})
Totals == \A type \in Types : SumOver(type, Keys(S, type)) = Total(S, type)
Additive == Len(S) > 0 => \A type \in Types : \A k \in Keys(S, type) :
    Count2(S, type, k) = Count2(SubSeq(S, 1, Len(S) - 1), type, k) + CountIn(S[Len(S)], type, k)
\* a spectrum between bounds is the part of the whole spectrum between them (a design
\* that forgets the years around the bounds fails)
Full == [y \in (0 - 1)..9 |-> CitedIn(S, y)]
F(y) == IF y \in DOMAIN Full THEN Full[y] ELSE 0
Inside(lo, hi) == [y \in (0 - 1)..9 |-> IF lo <= y /\ y <= hi THEN CitedIn(S, y) ELSE 0]
Cut == \A lo \in 1..3 : \A hi \in lo..4 : \A y \in lo..hi :
    LET I == IF OnlyInside THEN Inside(lo, hi) ELSE Inside(lo - 2, hi + 2)
        G(z) == IF z \in DOMAIN I THEN I[z] ELSE 0
    IN Deviation(G, y) = Deviation(F, y)
Bounds == \A y \in 1..5 : Deviation(F, y) <= F(y) /\ (F(y) = 0 => Deviation(F, y) <= 0)
Spectrum == LET Y == {y \in 1..5 : F(y) > 0} IN SumSeq([y \in 1..5 |-> F(y)]) <= Total(S, "year") /\ YearsSeen(S) = Y
=================================================================================
