-------------------------------- MODULE MKCli --------------------------------
(***************************************************************************)
(* A session of the command line program: what it asks for next and what    *)
(* it does, answer by answer.  A world w is [args, name, files, tags, unknown]:       *)
(* the paths and the name given on the command line, the paths that exist    *)
(* and the tags the records have, and unknown, the number of journals cited   *)
(* that are neither known nor marked to be skipped.  A session q is                            *)
(*   at      what is being asked, or "end"                                   *)
(*   result  "" or how it ended: done, quit, interrupt, error                *)
(*   files   the paths read                                                  *)
(*   disk    the files there are, as [n |-> name, k |-> what is in it]; "old" *)
(*           for those that were there before                                *)
(*   kind    what is being written ("records", "table", "cites", ...)         *)
(*   only    only journals, for the citations                                *)
(*   graph   a network is made after the writing                             *)
(*   over    the file that is about to be replaced                           *)
(*   net     the network: [k |-> kind, tags |-> sequence of tags]             *)
(*   js      the journals gone over so far: TRUE for added, FALSE for skipped   *)
(*   steps   the filters so far, as <<number of the filter, bound>>           *)
(***************************************************************************)
EXTENDS MKCommon, MKText

Suffix(k) == CASE k = "records" -> ".txt" [] k = "graphml" -> ".graphml" [] k = "lists" -> "" [] OTHER -> ".csv"
NoNet == [k |-> "", tags |-> <<>>]
Blank == [at |-> "", result |-> "", files |-> <<>>, disk |-> {}, kind |-> "", only |-> FALSE, graph |-> FALSE, over |-> "", net |-> NoNet, steps |-> <<>>, js |-> <<>>]
Names(q) == {f.n : f \in q.disk}
End(q, how) == [q EXCEPT !.at = "end", !.result = how]
\* a network in two files
Targets(k, stem) == IF k = "lists" THEN {[n |-> stem \o "_edgeList.csv", k |-> "edges"], [n |-> stem \o "_nodeAttributes.csv", k |-> "nodes"]}
                    ELSE {[n |-> stem, k |-> k]}
Written(q, s) == LET t == Targets(q.kind, s) IN
    [q EXCEPT !.disk = {f \in @ : f.n \notin {g.n : g \in t}} \cup t, !.over = "", !.kind = "",
              !.at = IF q.graph /\ q.net.k = "" THEN "net" ELSE "end", !.result = IF q.graph /\ q.net.k = "" THEN "" ELSE "done"]
\* the contents of a file once asked for: under the name given, or one that is asked for
Write(q, k, w) == LET p == [q EXCEPT !.kind = k] IN IF w.name # "" THEN Written(p, w.name \o Suffix(k)) ELSE [p EXCEPT !.at = "name"]

Begin(w, disk) == LET q == [Blank EXCEPT !.disk = disk] IN
    IF w.args = <<>> THEN [q EXCEPT !.at = "files"]
    ELSE IF SeqRange(w.args) \subseteq w.files THEN [q EXCEPT !.at = "what", !.files = w.args] ELSE End(q, "error")

Yes(a) == a \in {"", "y", "Y"}
No(a) == a \in {"n", "N"}
IsInt(a) == IsDigits(IF StartsWith(a, "-") THEN From(a, 2) ELSE a)
\* menus take the console and the end besides their own numbers; the console comes back to the menu
Menu(q, a, next) == IF a = "q" THEN End(q, "quit") ELSE next
Modes == [x \in {"1", "2", "3"} |-> CASE x = "1" -> "one" [] x = "2" -> "two" [] OTHER -> "multi"]
Whole == [x \in {"4", "5", "6"} |-> CASE x = "4" -> "citation" [] x = "5" -> "cocitation" [] OTHER -> "coauthor"]

Answer(q, a, w) ==
  IF a = "^C" THEN End(q, "interrupt")
  ELSE CASE q.at = "files" -> LET ps == Split(a, " ") IN IF SeqRange(ps) \subseteq w.files THEN [q EXCEPT !.at = "what", !.files = ps] ELSE q
    [] q.at = "what" -> Menu(q, a,
         CASE a = "1" -> [q EXCEPT !.at = "net", !.graph = TRUE]
           [] a \in {"2", "3"} -> Write([q EXCEPT !.graph = (a = "3")], "records", w)
           [] a \in {"4", "5"} -> Write([q EXCEPT !.graph = (a = "5")], "table", w)
           [] a = "6" -> [q EXCEPT !.at = "only"]
           [] a = "7" -> [q EXCEPT !.at = "db"]
           [] OTHER -> q)
    [] q.at = "db" -> IF w.unknown = 0 THEN End(q, "done") ELSE [q EXCEPT !.at = "journal"]
    [] q.at = "journal" -> IF Yes(a) \/ No(a) THEN LET p == [q EXCEPT !.js = Append(@, Yes(a))] IN IF Len(p.js) = w.unknown THEN End(p, "done") ELSE p ELSE q
    [] q.at = "only" -> IF Yes(a) \/ No(a) THEN Write([q EXCEPT !.only = Yes(a)], "cites", w) ELSE q
    [] q.at = "name" -> IF a = "" /\ q.kind = "lists" THEN q
                        ELSE LET s == a \o Suffix(q.kind) IN
                             IF {f.n : f \in Targets(q.kind, s)} \cap Names(q) # {} THEN [q EXCEPT !.at = "over", !.over = s] ELSE Written(q, s)
    [] q.at = "over" -> IF Yes(a) THEN Written(q, q.over) ELSE IF No(a) THEN [q EXCEPT !.at = "name", !.over = ""] ELSE q
    [] q.at = "net" -> Menu(q, a,
         IF a \in DOMAIN Modes THEN [q EXCEPT !.at = "tag", !.net = [k |-> Modes[a], tags |-> <<>>]]
         ELSE IF a \in DOMAIN Whole THEN [q EXCEPT !.at = "filter", !.net = [k |-> Whole[a], tags |-> <<>>]] ELSE q)
    [] q.at \in {"tag", "more"} ->
         LET t == Upper(a) IN
         IF t \in w.tags THEN LET p == [q EXCEPT !.net.tags = Append(@, t)] IN
                              [p EXCEPT !.at = CASE p.net.k = "one" -> "filter" [] p.net.k = "two" -> (IF Len(p.net.tags) = 2 THEN "filter" ELSE "tag") [] OTHER -> "more"]
         ELSE IF q.at = "more" /\ a = "" THEN [q EXCEPT !.at = "filter"] ELSE q
    [] q.at = "filter" -> Menu(q, a,
         CASE a = "0" -> [q EXCEPT !.at = "out"]
           [] a \in {"1", "2"} -> [q EXCEPT !.steps = Append(@, <<a, 0>>)]
           [] a \in {"3", "4", "5", "6"} -> [q EXCEPT !.at = "num", !.over = a]
           [] OTHER -> q)
    [] q.at = "num" -> IF IsInt(a) THEN [q EXCEPT !.at = "filter", !.steps = Append(@, <<q.over, IntOf(a)>>), !.over = ""] ELSE q
    [] q.at = "out" -> Menu(q, a,
         CASE a = "1" -> Write(q, "lists", w) [] a = "2" -> Write(q, "edges", w) [] a = "3" -> Write(q, "nodes", w) [] a = "4" -> Write(q, "graphml", w)
           [] OTHER -> q)
=============================================================================
