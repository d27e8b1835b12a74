---------------------------- MODULE Trace_CiteStats ----------------------------
(* case.recs: sequence of [year, cites], a citation being [k |-> "W", text] or   *)
(* [k |-> "S", parts] (a rendered Scopus citation) or [k |-> "B", text].                           *)
EXTENDS MKTrace, MKText
CT == INSTANCE MKCitation
ST == INSTANCE MKCiteStats

W(text) == LET c == CT!ParseWOS(text)
           IN [id |-> c.id, text |-> text, year |-> c.year, author |-> IF c.hasA THEN "s:" \o c.author ELSE ST!None,
               journal |-> IF c.journal = "" THEN ST!None ELSE "s:" \o c.journal,
               V |-> IF c.V = "" THEN ST!None ELSE "s:" \o c.V, P |-> IF c.P = "" THEN ST!None ELSE "s:" \o c.P,
               DOI |-> IF c.DOI = "" THEN ST!None ELSE "s:" \o c.DOI, misc |-> IF c.misc = "" THEN ST!None ELSE "s:" \o c.misc]
S(p) == LET c == CT!ScopusFields(p)
        IN [id |-> c.id, text |-> CT!RenderScopus(p), year |-> c.year, author |-> "s:" \o c.author, journal |-> "s:" \o c.journal,
            V |-> IF c.V = "" THEN ST!None ELSE "s:" \o c.V, P |-> IF c.P = "" THEN ST!None ELSE "s:" \o c.P, DOI |-> ST!None, misc |-> ST!None]
\* a text that is no Scopus citation stands for itself and has no fields
B(text) == [id |-> text, text |-> text, year |-> ST!NoYear, author |-> ST!None, journal |-> ST!None, V |-> ST!None, P |-> ST!None, DOI |-> ST!None, misc |-> ST!None]
Cite(x) == CASE x.k = "W" -> W(x.text) [] x.k = "B" -> B(x.text) [] OTHER -> S(x.parts)
MyInit(c) == TLCEval([i \in 1..Len(c.recs) |-> [year |-> c.recs[i].year, cites |-> [j \in 1..Len(c.recs[i].cites) |-> Cite(c.recs[i].cites[j])]]])

Flat(s) == LET RECURSIVE Cat(_)
               Cat(n) == IF n = 0 THEN <<>> ELSE Cat(n - 1) \o s[n].cites
           IN Cat(Len(s))
YearKey(y) == IF y = ST!NoYear THEN ST!None ELSE "i:" \o ToString(y)
KeyText(k, type) == IF type = "year" THEN YearKey(k) ELSE IF type = "citation" THEN "c:" \o k ELSE k
Vals(c, field) == CASE field = "year" -> YearKey(c.year) [] field = "author" -> c.author [] field = "journal" -> c.journal [] field = "V" -> c.V
                    [] field = "P" -> c.P [] field = "DOI" -> c.DOI [] field = "misc" -> c.misc
Set(q) == {q[i] : i \in 1..Len(q)}

(* the occurrence counts of all keys *)
Stats(s, e) == LET K == ST!Keys(s, e.key) IN {[k |-> KeyText(k, e.key), n |-> ST!Count(s, e.key, k)] : k \in K}

(* citations selected by field and values *)
Selected(cs, e) == SelectSeq(cs, LAMBDA c : e.field = "" \/ (Vals(c, e.field) # ST!None /\ (~e.only \/ Vals(c, e.field) \in Set(e.values))))
IdsIn(q) == {q[i].id : i \in 1..Len(q)}
Times(q, id) == Cardinality({i \in 1..Len(q) : q[i].id = id})
TimesYear(q, y) == Cardinality({i \in 1..Len(q) : q[i].year = y})
\* x is the share a/b in millionths
Share(x, a, b) == LET d == x * b - 1000000 * a IN d <= b /\ 0 - d <= b
RowsOk(rows, sel) ==
    /\ Len(rows) = Cardinality(IdsIn(sel))
    /\ \A id \in IdsIn(sel) : \E i \in 1..Len(rows) : \E j \in 1..Len(sel) :
         /\ sel[j].id = id /\ rows[i].text = sel[j].text
         /\ rows[i].year = YearKey(sel[j].year) /\ rows[i].journal = sel[j].journal /\ rows[i].author = sel[j].author
\* the row belongs to the citations of its text
Of(row, sel) == {j \in 1..Len(sel) : sel[j].text = row.text}
CountsOk(rows, sel) == \A i \in 1..Len(rows) : \A j \in Of(rows[i], sel) :
    LET n == Times(sel, sel[j].id)
    IN /\ rows[i].n = n
       /\ Share(rows[i].all, n, Len(sel))
       /\ sel[j].year # ST!NoYear => Share(rows[i].inyear, n, TimesYear(sel, sel[j].year))

(* the spectrum *)
Lowest(s, e) == IF e.hasMin THEN e.min ELSE LET y == ST!MinOf({x \in ST!YearsSeen(s) : ~e.hasMax \/ x <= e.max + 2}) IN IF y > 1000 THEN y ELSE 1000
Highest(s, e) == IF e.hasMax THEN e.max ELSE LET y == ST!MaxOf({x \in ST!YearsSeen(s) : ~e.hasMin \/ x >= e.min - 2}) IN IF y < 2100 THEN y ELSE 2100
Rpys(s, e) ==
    LET lo == Lowest(s, e)
        hi == Highest(s, e)
        cnt == TLCEval([y \in (lo - 2)..(hi + 2) |-> ST!CitedIn(s, y)])
        F(y) == cnt[y]
        Y == (lo..hi) \ Set(e.drop)
        dev == TLCEval([y \in Y |-> ST!Deviation(F, y)])
        got == TLCEval([y \in {e.rows[i].year : i \in 1..Len(e.rows)} |-> e.rows[CHOOSE i \in 1..Len(e.rows) : e.rows[i].year = y]])
        ranked(y) == cnt[y] > 0 \/ e.empty
        fine == Len(e.rows) = Cardinality(Y) /\ DOMAIN got = Y
    IN Failing({<<"rpys: exactly the years inside the bounds", fine>>,
                <<"rpys: number of citations", fine => \A y \in Y : got[y].n = cnt[y]>>,
                <<"rpys: deviation from the median", fine => \A y \in Y : got[y].dev = dev[y]>>,
                <<"rpys: years without citations have rank 0", fine => \A y \in Y : ranked(y) = (got[y].rank # 0)>>,
                <<"rpys: rank by deviation", fine => \A y \in Y : ranked(y) =>
                    /\ got[y].rank > Cardinality({z \in Y : dev[z] < dev[y]})
                    /\ got[y].rank <= Cardinality({z \in Y : dev[z] <= dev[y]})>>,
                <<"rpys: no rank twice", fine => \A y, z \in Y : (y # z /\ ranked(y) /\ ranked(z)) => got[y].rank # got[z].rank>>})

MyStep(s, e) ==
    LET from == IF e.op \in {"cites", "list"} THEN (IF e.rec = 0 THEN Flat(s) ELSE s[e.rec].cites) ELSE <<>>
        sel == IF e.op \in {"cites", "list"} THEN Selected(from, e) ELSE <<>>
    IN [st |-> s, bad |->
      CASE e.op = "stats" -> Failing({<<"localCiteStats: one entry per key", Len(e.got) = Cardinality({x.k : x \in Set(e.got)})>>,
                                      <<"localCiteStats: occurrences of each " \o e.key, Set(e.got) = Stats(s, e)>>})
        [] e.op = "cites" -> Failing({<<"getCitations: one row per citation selected", RowsOk(e.rows, sel)>>,
                                      <<"getCitations: counts and shares", e.counts => CountsOk(e.rows, sel)>>,
                                      <<"getCitations: columns", e.cols = IF e.counts THEN 7 ELSE 4>>})
        [] e.op = "list" -> Failing({<<"getCitations: exactly the citations selected",
                                       IF e.rec # 0 THEN e.ids = [i \in 1..Len(sel) |-> sel[i].id]
                                       ELSE Set(e.ids) = IdsIn(sel) /\ Len(e.ids) = Cardinality(IdsIn(sel))>>})
        [] e.op = "rpys" -> Rpys(s, e)
        [] e.op = "after" -> Failing({<<"the collection and its records are as before", e.same>>})]
=============================================================================
