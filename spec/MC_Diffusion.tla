------------------------------ MODULE MC_Diffusion ------------------------------
EXTENDS MKDiffusion, TLC
CONSTANTS MaxTargets, MaxCites
Vs == {"a", "b"}
Xs == {"x", "y"}
\* source i is cited as "c1" or (by its second author) "d1"
Src(i, V) == [id |-> i, vals |-> V, own |-> {"c" \o ToString(i), "d" \o ToString(i)}, cites |-> <<>>, extra |-> <<>>]
VARIABLES S, Ts
vars == <<S, Ts>>
Init == /\ Ts = <<>>
        /\ \E V, W \in SUBSET Vs : S = <<Src(1, V), Src(2, W)>>
New == [id |-> 0, vals |-> {}, own |-> {}, cites |-> <<>>, extra |-> <<>>]
AddTarget == /\ Len(Ts) < MaxTargets
             /\ \E V \in SUBSET Vs, E \in {<<>>, <<"x">>, <<"x", "y">>} : Ts' = Append(Ts, [New EXCEPT !.vals = V, !.extra = E])
             /\ UNCHANGED S
Cite == /\ Ts # <<>> /\ Len(Ts[Len(Ts)].cites) < MaxCites
        /\ \E c \in {"c1", "d1", "c2", "q"} : Ts' = [Ts EXCEPT ![Len(Ts)].cites = Append(@, c)]
        /\ UNCHANGED S
Next == AddTarget \/ Cite
Spec == Init /\ [][Next]_vars
\* counts add up over targets, and nothing is counted that is not a citation of a source
Last == Ts[Len(Ts)]
Before == SubSeq(Ts, 1, Len(Ts) - 1)
Additive == Ts # <<>> => \A v \in Vs : CountOf(S, Ts, v) = CountOf(S, Before, v) + HitsOf(S, v, Last)
OrderFree == Len(Ts) = 2 => \A v \in Vs : /\ CountOf(S, Ts, v) = CountOf(S, <<Ts[2], Ts[1]>>, v)
                                          /\ CountOf(S, Ts, v) = CountOf(<<S[2], S[1]>>, Ts, v)
Bounded == \A v \in Vs : CountOf(S, Ts, v) <= SumSeq([j \in 1..Len(Ts) |-> Len(Ts[j].cites)])
Zero == \A v \in Vs : v \notin ValuesIn(S) => CountOf(S, Ts, v) = 0
\* broken down by a field every target has once, the parts make up the whole
Parts == (\A j \in 1..Len(Ts) : Len(Ts[j].extra) = 1) => \A v \in Vs : CountOf(S, Ts, v) = CountBy(S, Ts, v, "x") + CountBy(S, Ts, v, "y")
\* the weights into the values of targets with one value make up the count
WeightsSum == (\A j \in 1..Len(Ts) : Cardinality(Ts[j].vals) = 1) => \A v \in Vs : CountOf(S, Ts, v) = Weight(S, Ts, v, "a") + Weight(S, Ts, v, "b")
LabelsSplit == (\A j \in 1..Len(Ts) : Len(Ts[j].extra) = 1) => \A v, w \in Vs : Weight(S, Ts, v, w) = WeightBy(S, Ts, v, w, "x") + WeightBy(S, Ts, v, w, "y")
===============================================================================
