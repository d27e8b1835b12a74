------------------------------- MODULE MC_Tags -------------------------------
(* Incremental counting, record by record in any order, against the closed     *)
(* forms; laws of series and tables; every small case printed as a scenario.   *)
EXTENDS MKTags, Json
CONSTANTS Slots
FKinds == <<<<>>, <<"s:a">>, <<"s:a", "s:B">>, <<"s:B", "s:a", "s:B">>>>
GKinds == <<<<>>, <<"s:a">>, <<"s:c", "s:a">>>>
YKinds == <<<<>>, <<"i:1999">>, <<"i:2000">>>>
Shapes == {<<"F">>, <<"F", "G">>, <<"G", "F">>, <<"F", "G", "year">>, <<"F", "F">>}
VARIABLES fk, gk, yk, shape, how, todo, cnt, lev, mode
vars == <<fk, gk, yk, shape, how, todo, cnt, lev, mode>>
Rec(s) == [F |-> FKinds[fk[s]], G |-> GKinds[gk[s]], year |-> YKinds[yk[s]], UT |-> <<"s:" \o ToString(s)>>]
None == [x \in {} |-> 0]
Add(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN f \cup {x} |-> IF y = x THEN 1 ELSE f[y]]
RECURSIVE AddAll(_, _)
AddAll(f, q) == IF q = <<>> THEN f ELSE AddAll(Add(f, Head(q)), Tail(q))
Init == /\ fk \in [Slots -> 1..Len(FKinds)] /\ gk \in [Slots -> 1..Len(GKinds)]
        /\ yk = [s \in Slots |-> 1 + ((fk[s] + gk[s] + s) % 3)]
        /\ shape \in Shapes /\ how \in {"none", "lower"}
        /\ todo = Slots /\ cnt = None /\ lev = None /\ mode = None
RowOf(s) == [i \in 1..Len(shape) |-> Row(Rec(s), shape[i], how)]
Unord(q) == [i \in 1..Len(q) |-> {q[i][1], q[i][2]}]
Step(s) == /\ s \in todo /\ todo' = todo \ {s} /\ UNCHANGED <<fk, gk, yk, shape, how>>
           /\ cnt' = AddAll(cnt, LevelRow(RowOf(s)))
           /\ lev' = AddAll(lev, Unord(LevelArcs(RowOf(s))))
           /\ mode' = AddAll(mode, ModeArcs(RowOf(s)))
Next == \E s \in Slots : Step(s)
Spec == Init /\ [][Next]_vars
EmitNext == /\ todo = Slots /\ todo' = {} /\ UNCHANGED <<fk, gk, yk, shape, how, cnt, lev, mode>>
            /\ PrintT("T " \o ToJson([recs |-> [i \in 1..Cardinality(Slots) |-> [f |-> fk[i], g |-> gk[i], y |-> yk[i]]], shape |-> shape, how |-> how]))
SpecEmit == Init /\ [][EmitNext]_vars

Done == Slots \ todo
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})
D == SeqOf(Done)
Rows == [i \in 1..Len(D) |-> RowOf(D[i])]
S == [i \in 1..Len(D) |-> Rec(D[i])]
CountClosed == DOMAIN cnt = NodesOf(Rows) /\ \A x \in DOMAIN cnt : cnt[x] = NodeCount(Rows, x)
LevelClosed == \A x, y \in DOMAIN cnt : (IF {x, y} \in DOMAIN lev THEN lev[{x, y}] ELSE 0) = SumSeq([i \in 1..Len(Rows) |-> LevelCount(Rows[i], x, y)])
ModeClosed == \A x, y \in DOMAIN cnt : (IF <<x, y>> \in DOMAIN mode THEN mode[<<x, y>>] ELSE 0) = SumSeq([i \in 1..Len(Rows) |-> ModeCount(Rows[i], x, y)])
\* a two-mode network is a multi-level network without the pairs inside a field
TwoInLevel == Len(shape) = 2 => \A x, y \in DOMAIN cnt : \A i \in 1..Len(Rows) :
    LevelCount(Rows[i], x, y) = ModeCountU(Rows[i], x, y) + LevelCount(<<Rows[i][1]>>, x, y) + LevelCount(<<Rows[i][2]>>, x, y)
\* series: years partition the occurrences of records with a year; co-occurrence is symmetric for single fields
YearsPartition == \A v \in ValsOf(S, "F", {}) :
    SumSeq([y \in 1..2 |-> YearCount(S, "F", v, IF y = 1 THEN "i:1999" ELSE "i:2000")]) = ValCount(SelectSeq(S, LAMBDA r : r.year # <<>>), "F", v)
CoOccSymmetric == \A k \in ValsOf(S, "F", {}), v \in ValsOf(S, "G", {}) : CoOcc(S, "F", <<"G">>, k, v) = CoOcc(S, "G", <<"F">>, v, k)
RankLaw == \A u, v \in ValsOf(S, "F", {}) : (RankOf(S, "F", {}, u) < RankOf(S, "F", {}, v)) <=> (ValCount(S, "F", u) > ValCount(S, "F", v))
=============================================================================
