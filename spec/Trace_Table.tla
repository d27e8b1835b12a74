------------------------------ MODULE Trace_Table ------------------------------
(* case.pool: the records, [src, f]; case.table: <<name, gender>> pairs.          *)
EXTENDS MKTrace, MKDecode
T2 == INSTANCE MKTable WITH TagPairs <- WosPairs
CS == INSTANCE MKCsv
GE == INSTANCE MKGenders

Sep == "<|>"
Tag(x) == CASE x.k = "i" -> "i:" \o ToString(x.v) [] x.k \in {"l", "c"} -> x.k \o ":" \o Join(x.v, Sep)
            [] x.k = "a" -> "a:" [] OTHER -> x.k \o ":" \o x.v
\* the text of a cell
CellOf(x, delim) == CASE x.k = "i" -> ToString(x.v) [] x.k \in {"l", "c"} -> Join(x.v, delim) [] x.k = "a" -> "" [] OTHER -> x.v
RawOf(p, a) == LET t == IF Has(p.f, a) THEN a ELSE IF TagOf(p.src, a) # "" /\ Has(p.f, TagOf(p.src, a)) THEN TagOf(p.src, a)
                        ELSE IF NameOf(p.src, a) # "" /\ Has(p.f, NameOf(p.src, a)) THEN NameOf(p.src, a) ELSE ""
               IN IF t = "" THEN Absent ELSE IF p.src = "S" THEN Val("s", Raw(p.f, t)[1]) ELSE L(Raw(p.f, t))
NumAuthors(p) == LET a == View(p.src, p.f, "authorsShort") IN IF a.k = "a" THEN 0 ELSE Len(a.v)
Authors(p) == LET a == View(p.src, p.f, "authorsFull") IN IF a.k = "a" THEN <<>> ELSE a.v
TableOf(c) == [n \in {c.table[i][1] : i \in 1..Len(c.table)} |-> (c.table[CHOOSE i \in 1..Len(c.table) : c.table[i][1] = n])[2]]
MyInit(c) == [pool |-> c.pool, table |-> TableOf(c)]
StoredIn(pool) == {pool[i].f[j].t : <<i, j>> \in UNION {{<<i, j>> : j \in 1..Len(pool[i].f)} : i \in 1..Len(pool)}}
Set(q) == {q[i] : i \in 1..Len(q)}

Extra(e) == (IF e.nauth THEN <<"num-Authors">> ELSE <<>>) \o (IF e.gender THEN <<"num-Male", "num-Female", "num-Unknown">> ELSE <<>>)
ExtraRow(q, p, e) == (IF e.nauth THEN <<NumAuthors(p)>> ELSE <<>>) \o (IF e.gender THEN GE!Counts(Authors(p), q.table) ELSE <<>>)
AsText(x) == [i \in 1..Len(x) |-> ToString(x[i])]
AsTag(x) == [i \in 1..Len(x) |-> "i:" \o ToString(x[i])]
\* a column, as shown, back to the short tag it stands for
Back(c, long) == IF long THEN T2!ShortOf(c) ELSE c
\* the name under which the value of a column is asked of a record
LookAs(c, names, long) == IF long THEN c ELSE T2!AskedAs(c, names)
Shown(cols, long) == IF long THEN [i \in 1..Len(cols) |-> T2!LongOf(cols[i])] ELSE cols

\* a tag without a long name, where those are wanted
CommonNames == {"year", "volume", "beginningPage", "DOI", "address", "j9", "citations", "grants", "selfCitation", "authorsShort", "authorsFull", "title",
                "journal", "keywords", "abstract", "id"}
Unnamed(short, e) == e.long /\ \E t \in short : ~T2!IsShort(t) /\ t \notin CommonNames

(* makeDict: columns in no order, every one as long as the collection, the rows a bag *)
DictStep(q, e) ==
    LET short == IF e.given THEN Set(T2!Shorts(e.only)) ELSE StoredIn(q.pool)
        want == IF e.long THEN {T2!LongOf(t) : t \in short} ELSE short
        fields == [i \in 1..(Len(e.cols) - Len(Extra(e))) |-> e.cols[i]]
        cellAt(p, c) == LET a == LookAs(c, e.only, e.long) IN Tag(IF e.raw THEN RawOf(p, a) ELSE View(p.src, p.f, a))
        rows == [i \in 1..Len(q.pool) |-> [j \in 1..Len(fields) |-> cellAt(q.pool[i], fields[j])] \o AsTag(ExtraRow(q, q.pool[i], e))]
        fine == Len(e.cols) >= Len(Extra(e)) /\ Set(fields) = want /\ Cardinality(want) = Len(fields)
                /\ SubSeq(e.cols, Len(fields) + 1, Len(e.cols)) = Extra(e)
    IN IF e.out # "ok" \/ Unnamed(short, e) THEN Failing({<<"makeDict: refused exactly when a tag has no long name", (e.out = "KeyError") = Unnamed(short, e)>>, <<"makeDict: outcome", e.out \in {"ok", "KeyError"}>>})
       ELSE Failing({<<"makeDict: exactly the requested columns", fine>>,
                <<"makeDict: columns of equal length", e.even>>,
                <<"makeDict: one row per record, of its own values", (fine /\ e.even) => T2!SameRows(TLCEval(rows), e.rows)>>})

(* writeCSV: text of a file, or of the files by name *)
RowOf(q, p, e, cols) == [j \in 1..Len(cols) |-> CellOf(View(p.src, p.f, LookAs(cols[j], e.first \o e.only, e.long)), e.list)] \o AsText(ExtraRow(q, p, e))
HeaderOk(q, e, head) ==
    LET n == Len(head) - Len(Extra(e))
        cols == SubSeq(head, 1, n)
    IN /\ n >= 0 /\ SubSeq(head, n + 1, Len(head)) = Extra(e)
       /\ IF e.given THEN cols = Shown(T2!Columns(e.first, e.only), e.long)
          ELSE T2!AllColumns(e.first, StoredIn(q.pool), [i \in 1..n |-> Back(cols[i], e.long)]) /\ cols = Shown([i \in 1..n |-> Back(cols[i], e.long)], e.long)
FileOk(q, e, text, recs) ==
    LET t == TLCEval(CS!ParseWith(text, e.delim, e.quote))
        head == CS!Header(t)
        cols == SubSeq(head, 1, Len(head) - Len(Extra(e)))
    IN IF t = <<>> \/ ~HeaderOk(q, e, head) THEN {"writeCSV: columns"}
       ELSE Failing({<<"writeCSV: one row per record, of its own values", T2!SameRows(TLCEval([i \in 1..Len(recs) |-> RowOf(q, recs[i], e, cols)]), CS!Body(t))>>})
ValuesOf(p, tag) == LET v == View(p.src, p.f, tag) IN CASE v.k = "a" -> <<>> [] v.k \in {"l", "c"} -> v.v [] OTHER -> <<CellOf(v, "")>>
CsvStep(q, e) ==
    LET short == IF e.given THEN Set(T2!Columns(e.first, e.only)) ELSE StoredIn(q.pool) \cup Set(T2!Shorts(e.first))
    IN IF e.out # "ok" \/ Unnamed(short, e) THEN Failing({<<"writeCSV: refused exactly when a tag has no long name", (e.out = "KeyError") = Unnamed(short, e)>>, <<"writeCSV: outcome", e.out \in {"ok", "KeyError"}>>})
    ELSE IF e.split = "" THEN FileOk(q, e, e.files[1].text, q.pool) \cup Failing({<<"writeCSV: writes its file only", Len(e.files) = 1 /\ e.files[1].name = e.base>>})
    ELSE LET files == UNION {T2!FilesOf(ValuesOf(q.pool[i], e.split), e.base) : i \in 1..Len(q.pool)}
             with(f) == SelectSeq(q.pool, LAMBDA p : f \in T2!FilesOf(ValuesOf(p, e.split), e.base))
         IN IF {e.files[i].name : i \in 1..Len(e.files)} # files THEN {"splitByTag: one file per value"}
            ELSE UNION {FileOk(q, e, e.files[i].text, with(e.files[i].name)) : i \in 1..Len(e.files)}

MyStep(q, e) == [st |-> q, bad |->
    CASE e.op = "dict" -> DictStep(q, e)
      [] e.op = "csv" -> CsvStep(q, e)
      [] e.op = "after" -> Failing({<<"the collection and its records are as before", e.same>>})]
=============================================================================
