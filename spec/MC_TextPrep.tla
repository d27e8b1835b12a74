------------------------------ MODULE MC_TextPrep ------------------------------
(* Every short text under every combination of steps; and texts with markers.     *)
EXTENDS MKTextPrep, Json
CONSTANTS MaxLen, OnePass
VARIABLES s, n, o
vars == <<s, n, o>>
Pieces == {"a", "B", "a B", "1", "-", " ", "\n", ". (c) ", ". Copyright"}
Options == [drop : {<<>>, <<"a">>, <<"a", "B">>, <<"a B">>, <<"">>}, given : {TRUE}, lower : BOOLEAN, numbers : BOOLEAN, nonwords : BOOLEAN, blanks : BOOLEAN, copyright : BOOLEAN, stem : {""}]
Init == s = "" /\ n = 0 /\ o \in Options
Next == n < MaxLen /\ n' = n + 1 /\ o' = o /\ \E p \in Pieces : s' = s \o p
Spec == Init /\ [][Next]_vars
Text == IF OnePass THEN LET r == Replace(" " \o s \o " ", " " \o o.drop[1] \o " ", " ") IN SubSeq(r, 2, Len(r) - 1) ELSE Dropped(s, o.drop)
\* no dropped phrase is left, every other word is, in its place
NoneLeft == (Len(o.drop) = 1 /\ o.drop # <<"">>) => ~Contains(" " \o Text \o " ", " " \o o.drop[1] \o " ")
OthersStay == (o.drop # <<>> /\ \A i \in 1..Len(o.drop) : ~Contains(o.drop[i], " ")) =>
    Split(Text, " ") = LET w == SelectSeq(Split(s, " "), LAMBDA x : ~(\E i \in 1..Len(o.drop) : o.drop[i] = x)) IN IF w = <<>> THEN <<"">> ELSE w
\* text and statement are the whole, but for blanks at the end
NothingLost == LET c == Copyright(s) IN c.text \o c.statement = (IF c.statement = "" THEN s ELSE RStrip(s)) \/ c.text \o RStrip(c.statement) = RStrip(s)
Found == (\E i \in 1..Len(Markers) : Contains(s, Markers[i])) <=> Copyright(s).statement # ""
\* the characters that were to go are gone, all others are there
Exactly == LET p == Prepare(s, o).text IN
    /\ \A i \in 1..Len(p) : Kept(Ch(p, i), o) /\ (o.lower => Ch(p, i) \notin UpperSet) /\ (o.blanks => Ch(p, i) \notin {"\n"})
    /\ (o.drop = <<>> /\ ~o.copyright /\ ~o.blanks /\ ~o.lower /\ ~o.numbers /\ ~o.nonwords) => p = Replace(s, "\n", " ")
WordsAgree == (~o.copyright /\ ~Contains(s, "\n")) => SelectSeq(Split(Prepare(s, o).text, " "), LAMBDA x : x # "") = Words(s, o)
Emit == (o.lower /\ o.numbers /\ o.nonwords /\ o.blanks /\ o.copyright) => PrintT("P " \o ToJson([s |-> s, drop |-> o.drop]))
================================================================================
