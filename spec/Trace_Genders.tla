----------------------------- MODULE Trace_Genders -----------------------------
(* case.authors: of each record the sequence of its full names (one character   *)
(* per position, accents spelled \x..); case.table: <<name, gender>> pairs as    *)
(* in the file of names.                                                          *)
EXTENDS MKTrace, MKGenders
\* the names of the table in title case; of a name listed twice the last counts
LastOf(t, n) == t[CHOOSE i \in 1..Len(t) : Title(t[i][1]) = n /\ \A j \in (i + 1)..Len(t) : Title(t[j][1]) # n][2]
TableOf(t) == [n \in {Title(t[i][1]) : i \in 1..Len(t)} |-> LastOf(t, n)]
MyInit(c) == [authors |-> c.authors, table |-> TLCEval(TableOf(c.table))]
Set(q) == {q[i] : i \in 1..Len(q)}
Sum3(x) == x[1] + x[2] + x[3]
Share(x, a, b) == LET d == x * b - 1000000 * a IN d <= b /\ 0 - d <= b
RECURSIVE Total(_, _, _, _)
Total(as, table, i, n) == IF n = 0 THEN 0 ELSE Total(as, table, i, n - 1) + Count(as[n], table, Genders[i])
MyStep(q, e) ==
    LET a == IF e.op \in {"assign", "counts", "shares"} THEN q.authors[e.rec] ELSE <<>>
        c == IF e.op \in {"counts", "shares"} THEN Counts(a, q.table) ELSE <<0, 0, 0>>
        all == IF e.op \in {"stats", "statshares"} THEN [i \in 1..3 |-> Total(q.authors, q.table, i, Len(q.authors))] ELSE <<0, 0, 0>>
    IN [st |-> q, bad |->
      CASE e.op = "assign" -> LET want == Assign(a, q.table) IN
             Failing({<<"authGenders: every author once", Len(e.got) = Cardinality(DOMAIN want) /\ {e.got[i].n : i \in 1..Len(e.got)} = DOMAIN want>>,
                      <<"authGenders: gender by the first given name", \A i \in 1..Len(e.got) : e.got[i].n \in DOMAIN want => e.got[i].g = want[e.got[i].n]>>})
        [] e.op = "counts" -> Failing({<<"authGenders: counts", e.got = c>>})
        [] e.op = "shares" -> Failing({<<"authGenders: fractions", \A i \in 1..3 : Share(e.got[i], c[i], Sum3(c))>>})
        [] e.op = "stats" -> Failing({<<"genderStats: sums over the records", e.got = all>>})
        [] e.op = "statshares" -> Failing({<<"genderStats: fractions of the sums", \A i \in 1..3 : Share(e.got[i], all[i], Sum3(all))>>})
        [] e.op = "name" -> Failing({<<"nameStringGender", IF ~e.lenient /\ ~HasGiven(e.name) THEN e.got = "exc:GenderException" ELSE e.got = GenderOf(e.name, q.table)>>})
        [] e.op = "after" -> Failing({<<"the records are as before", e.same>>})]
=============================================================================
