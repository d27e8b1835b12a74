-------------------------------- MODULE MC_Cli --------------------------------
(***************************************************************************)
(* Every session of the command line program up to a number of answers, and *)
(* sessions to replay.  Design "hasty" takes any answer to the question      *)
(* about an existing file for a yes.                                         *)
(***************************************************************************)
EXTENDS MKCli, Json, TLC
CONSTANTS Depth, Design, Wide, Unknown
Paths == {"f1.isi", "f2.isi", "d1"}
Worlds == [args : IF Wide THEN {<<>>, <<"f1.isi">>, <<"f1.isi", "f2.isi">>, <<"d1">>, <<"gone">>, <<"f1.isi", "gone">>, <<"f2.isi", "d1", "f1.isi">>, <<"f1.isi", "d1", "gone">>} ELSE {<<>>, <<"f1.isi">>},
           name : {"", "given"}, files : {Paths}, tags : {{"AF", "DE", "PY"}}, unknown : Unknown]
Old == {[n |-> "o.txt", k |-> "old"], [n |-> "o.csv", k |-> "old"], [n |-> "o.graphml", k |-> "old"], [n |-> "o_edgeList.csv", k |-> "old"], [n |-> "p_nodeAttributes.csv", k |-> "old"],
        [n |-> "given_edgeList.csv", k |-> "old"], [n |-> "given.txt", k |-> "old"], [n |-> "given.graphml", k |-> "old"]}
VARIABLES w, q, said, agreed, start
vars == <<w, q, said, agreed, start>>

Again == {"x"}
Ask(at) == CASE at = "files" -> {"f1.isi", "f2.isi d1", "gone", "f1.isi gone"} \cup (IF Wide THEN {"f1.isi d1 f2.isi", "gone f1.isi", "f1.isi d1 gone", "d1 f1.isi lost f2.isi"} ELSE {})
             [] at = "what" -> {"1", "2", "3", "4", "5", "6", "q", "8", "i"} \cup (IF Unknown = {0} THEN {} ELSE {"7"})
             [] at = "db" -> {"db/m"}
             [] at = "journal" -> {"y", "n", ""} \cup Again
             [] at = "only" -> {"y", "n", ""} \cup Again
             [] at = "name" -> {"o", "fresh", "p", "r", ""}
             [] at = "over" -> {"y", "n", "N", ""} \cup Again
             [] at = "net" -> {"1", "2", "3", "4", "5", "6", "q", "7", "i"}
             [] at \in {"tag", "more"} -> {"AF", "de", "PY", "ZZ", ""}
             [] at = "filter" -> {"0", "1", "2", "3", "4", "5", "6", "7", "i", "q"}
             [] at = "num" -> {"1", "2", "3", "0", "-1", "few", ""}
             [] at = "out" -> {"1", "2", "3", "4", "9", "i"}
             [] OTHER -> {}
Sensible(p, a) == ~(p.at = "name" /\ a = "" /\ p.kind # "lists") /\ ~(p.at = "tag" /\ Upper(a) \in SeqRange(p.net.tags)) /\ ~(p.at = "more" /\ Upper(a) \in SeqRange(p.net.tags))
Reply(p, a) == IF Design = "hasty" /\ p.at = "over" THEN Written(p, p.over) ELSE Answer(p, a, w)
Init == /\ w \in Worlds /\ start \in {{}, Old} /\ q = Begin(w, start) /\ said = <<>> /\ agreed = {}
Next == /\ q.at # "end" /\ Len(said) < Depth
        /\ \E a \in Ask(q.at) \cup (IF Wide THEN {"^C"} ELSE {}) :
              /\ Sensible(q, a) /\ q' = Reply(q, a) /\ said' = Append(said, a)
              /\ agreed' = IF q.at = "over" /\ Yes(a) THEN agreed \cup {f.n : f \in Targets(q.kind, q.over)} ELSE agreed
        /\ UNCHANGED <<w, start>>
Spec == Init /\ [][Next]_vars

\* nothing that was there is replaced unless agreed to, or under the name given at the start
Safe == \A f \in start : f \in q.disk \/ f.n \in agreed \/ (w.name # "" /\ StartsWith(f.n, w.name))
\* a session that ended well did what was chosen; one that was left did nothing more
Ended == q.at = "end" => q.result \in {"done", "quit", "interrupt", "error"}
Done == (q.result = "done") => (q.disk # start \/ "7" \in SeqRange(said) \/ \E i \in 1..Len(said) : Yes(said[i]))
Network == (q.steps # <<>> \/ q.at \in {"filter", "out"}) => (q.net.k # "" /\ (q.net.k \in {"one", "two", "multi"} <=> q.net.tags # <<>>))
One == Cardinality(Names(q)) = Cardinality(q.disk)
JournalsOnce == Len(q.js) <= w.unknown /\ (q.js # <<>> => q.net.k = "" /\ q.disk = start)
\* a number is never asked for, nor a file written, without the choice before
Chosen == q.at # "end" => ((q.at \in {"name", "over"} <=> q.kind # "") /\ (q.at \in {"num", "over"} <=> q.over # ""))
Emit == q.at = "end" => PrintT("S " \o ToJson([w |-> w, said |-> said, start |-> {f.n : f \in start}, net |-> q.net, files |-> q.files]))
\* a random session: likely answers more often
Likely(p) == CASE p.at = "what" -> (IF Unknown = {0} THEN {"1", "3", "5"} ELSE {"7"}) [] p.at = "net" -> {"1", "2", "3", "4", "5", "6"} [] p.at = "filter" -> {"0", "1", "2", "3", "5"} [] p.at = "over" -> {"y", "n"}
               [] p.at = "num" -> {"1", "2", "3"} [] p.at = "out" -> {"1", "2", "3", "4"} [] p.at = "only" -> {"y", "n"} [] p.at = "name" -> {"o", "p", "fresh"} \cup (IF p.kind = "lists" THEN {""} ELSE {})
               [] p.at \in {"tag", "more"} -> {"AF", "de", "PY"} \cup (IF p.at = "more" THEN {""} ELSE {}) [] OTHER -> Ask(p.at)
RNext == /\ q.at \notin {"end", "over and out"} /\ Len(said) < Depth
         /\ \E die \in 1..12 : \E a \in (IF die < 11 THEN Likely(q) ELSE IF die = 11 THEN Ask(q.at) ELSE IF Len(said) > 6 THEN {"^C"} ELSE Likely(q)) :
              /\ Sensible(q, a) /\ q' = Reply(q, a) /\ said' = Append(said, a)
         /\ UNCHANGED <<w, start, agreed>>
Fin == /\ q.at = "end" /\ PrintT("S " \o ToJson([w |-> w, said |-> said, start |-> {f.n : f \in start}, net |-> q.net, files |-> q.files]))
       /\ q' = [q EXCEPT !.at = "over and out"] /\ UNCHANGED <<w, said, agreed, start>>
RSpec == Init /\ [][RNext \/ Fin]_vars
=============================================================================
