------------------------------ MODULE MC_Journals ------------------------------
(* Histories of downloads, additions, exclusions and sessions; `last` remembers   *)
(* for every abbreviation the latest change made by hand, `seen` the names of the *)
(* listing in the order of their first appearance.                                *)
EXTENDS MKJournals, Json
CONSTANTS MaxSteps, Design
Abbr == {"A", "B"}
Names == {"n", "m|n", ""}
ListNames == {"x", "y"}
VARIABLES w, m, d, on, last, seen, hist
vars == <<w, m, d, on, last, seen, hist>>
Init == w = Nil /\ m = Nil /\ d = Nil /\ on = FALSE /\ last = [a \in Abbr |-> "-"] /\ seen = [a \in Abbr |-> <<>>] /\ hist = <<>>
Step(h) == Len(hist) < MaxSteps /\ hist' = Append(hist, h)
\* by hand, at the database: a session that runs does not see it
Add(a, v) == Step(<<"add", a, v>>) /\ m' = PutAll(m, <<<<a, v>>>>) /\ last' = [last EXCEPT ![a] = v] /\ UNCHANGED <<w, d, on, seen>>
\* by hand, at a citation: the session sees it at once
CiteAdd(a, v) == /\ Step(<<"citeadd", a, v>>) /\ m' = PutAll(m, <<<<a, v>>>>) /\ last' = [last EXCEPT ![a] = v]
                 /\ d' = (IF on /\ Design # "stale" THEN Over(d, One(a, IF Design = "text" THEN <<Upto(v, 1)>> ELSE Split(v, "|"))) ELSE d)
                 /\ UNCHANGED <<w, on, seen>>
Update(a, n) == /\ Step(<<"update", a, n>>)
                /\ w' = (IF Design = "keeps first" /\ a \in DOMAIN w THEN w ELSE Listing(w, <<<<a, n>>>>))
                /\ seen' = [seen EXCEPT ![a] = IF \E i \in 1..Len(@) : @[i] = n THEN @ ELSE Append(@, n)] /\ UNCHANGED <<m, d, on, last>>
Load == Step(<<"load", "", "">>) /\ ~on /\ on' = TRUE /\ d' = Both(w, m) /\ UNCHANGED <<w, m, last, seen>>
Reopen == Step(<<"reopen", "", "">>) /\ on /\ on' = FALSE /\ d' = Nil /\ UNCHANGED <<w, m, last, seen>>
Next == Load \/ Reopen \/ \E a \in Abbr : (\E v \in Names : Add(a, v) \/ CiteAdd(a, v)) \/ \E n \in ListNames : Update(a, n)
Spec == Init /\ [][Next]_vars
Right(a) == IF last[a] # "-" THEN Split(last[a], "|") ELSE seen[a]
\* the lookup gives what the history says
Remembers == \A a \in Abbr : IF Known(Both(w, m), a) THEN Both(w, m)[a] = Right(a) ELSE Right(a) = <<>>
\* a session that sees every change is never out of date
Quiet == LET k == CHOOSE k \in 0..Len(hist) : (k = 0 \/ hist[k][1] = "load") /\ \A i \in (k + 1)..Len(hist) : hist[i][1] # "load"
         IN \A i \in (k + 1)..Len(hist) : hist[i][1] \notin {"add", "update"}
Session == (on /\ Quiet) => d = Both(w, m)
Emit == (Len(hist) = MaxSteps) => PrintT("J " \o ToJson(hist))
================================================================================
