------------------------------- MODULE MC_Record -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Design, MaxHandles, MaxHist
Keys == {"tag", "name", "common", "single", "absent tag", "absent name", "odd"}
Other(k) == CASE k = "tag" -> "name" [] k = "name" -> "tag" [] k = "absent tag" -> "absent name" [] k = "absent name" -> "absent tag" [] OTHER -> k
ValueOf(k) == CASE k \in {"tag", "name"} -> "v" [] k = "common" -> "c" [] k = "single" -> "s" [] OTHER -> "nothing"
R == INSTANCE MKRecord WITH Nothing <- "nothing"
VARIABLES objs, last, hist, done, touched
vars == <<objs, last, hist, done, touched>>
None == [k |-> "odd", got |-> "nothing", has |-> FALSE, spoiled |-> FALSE]
Note(x) == hist' = IF MaxHist = 0 THEN hist ELSE Append(hist, x)
Init == touched = {} /\ objs = <<R!Fresh>> /\ last = None /\ hist = <<>> /\ done = FALSE
Go == ~done /\ (MaxHist = 0 \/ Len(hist) < MaxHist) /\ UNCHANGED done
Look(h, k, how) ==
  /\ objs' = [objs EXCEPT ![h] = R!After(@, k)]
  /\ last' = [k |-> k, got |-> R!Answer(objs[h], k), has |-> R!Answer(objs[h], k) # "nothing", spoiled |-> k \in objs[h].bad]
  /\ UNCHANGED touched /\ Note([op |-> how, h |-> h, k |-> k])
CopyOf(h, how) == /\ Len(objs) < MaxHandles /\ objs' = Append(objs, R!Copy(objs[h])) /\ UNCHANGED <<last, touched>>
                  /\ Note([op |-> how, h |-> h, k |-> "odd"])
Change(h, k) == /\ R!Remembered(objs[h], k) /\ objs' = [objs EXCEPT ![h] = R!Spoil(@, k)] /\ UNCHANGED last
                /\ touched' = touched \cup {<<h, k>>, <<h, Other(k)>>}
                /\ Note([op |-> "change", h |-> h, k |-> k])
\* in histories every form of asking is told apart
Hows == IF MaxHist = 0 THEN {"index"} ELSE {"index", "get", "has", "sub", "raw"}
Ways == IF MaxHist = 0 THEN {"copy"} ELSE {"copy", "shallow", "deep", "pickle"}
Whole(h, how) == /\ MaxHist > 0 /\ Note([op |-> how, h |-> h, k |-> "odd"]) /\ UNCHANGED <<objs, last, touched>>
Next == \/ Go /\ \E h \in 1..Len(objs) : \/ \E k \in Keys, how \in Hows : Look(h, k, how)
                                         \/ \E how \in Ways : CopyOf(h, how)
                                         \/ \E k \in {"tag", "name", "common", "single"} : Change(h, k)
                                         \/ \E how \in {"iter", "items", "values", "same"} : Whole(h, how)
        \/ MaxHist > 0 /\ Len(hist) = MaxHist /\ ~done /\ done' = TRUE /\ UNCHANGED <<objs, last, hist, touched>>
Spec == Init /\ [][Next]_vars
EmitHist == done => PrintT("H " \o ToJson(hist))
\* lookups depend only on the record and the key
Stable == ~last.spoiled => last.got = ValueOf(last.k) /\ last.has = (ValueOf(last.k) # "nothing")
\* what is remembered is right, and a name and its tag are remembered together
MemoRight == \A h \in 1..Len(objs) : \A k \in Keys : (R!Remembered(objs[h], k) /\ k \notin objs[h].bad) =>
                objs[h].memo[k] = ValueOf(k) /\ objs[h].memo[Other(k)] = ValueOf(k)
\* spoiling one object's values shows in no other
Independent == \A h \in 1..Len(objs) : \A k \in Keys : objs[h].memo[k] = "spoiled" => <<h, k>> \in touched
===============================================================================
