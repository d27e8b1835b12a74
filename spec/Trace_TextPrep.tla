---------------------------- MODULE Trace_TextPrep ----------------------------
(* case.pool: the records, [src, f, id].  e.o: the steps asked for.               *)
EXTENDS MKTrace, MKDecode
TP == INSTANCE MKTextPrep
CS == INSTANCE MKCsv
MyInit(c) == [pool |-> c.pool]
Cell(p, t, delim) == LET x == View(p.src, p.f, t) IN CASE x.k = "i" -> ToString(x.v) [] x.k \in {"l", "c"} -> Join(x.v, delim) [] x.k = "a" -> "" [] OTHER -> x.v
Tagged(p, t, delim) == (IF View(p.src, p.f, t).k = "i" THEN "i:" ELSE "s:") \o Cell(p, t, delim)
Abstract(p) == Cell(p, "abstract", " ")
\* the row of a record: its cells by column
Builtin == {"id", "year", "title", "keywords", "abstract", "copyright"}
CellAt(p, col, e, prep) ==
    CASE col = "id" -> "s:" \o p.id [] col = "abstract" -> "s:" \o prep.text [] col = "copyright" /\ e.o.copyright -> "s:" \o prep.statement
      [] OTHER -> Tagged(p, col, "|")
RowOf(p, e, cols) == LET prep == TLCEval(TP!Prepare(Abstract(p), e.o)) IN [j \in 1..Len(cols) |-> CellAt(p, cols[j], e, prep)]
Untag(c) == IF Len(c) > 2 THEN SubSeq(c, 3, Len(c)) ELSE ""
Set(q) == {q[i] : i \in 1..Len(q)}
SameRows(a, b) == Len(a) = Len(b) /\ \A x \in Set(a) \cup Set(b) : Occ(a, x) = Occ(b, x)
NlpStep(q, e) ==
    LET want == {"id", "year", "title", "keywords", "abstract"} \cup Set(e.extra) \cup (IF e.o.copyright THEN {"copyright"} ELSE {})
        rows == TLCEval([i \in 1..Len(q.pool) |-> RowOf(q.pool[i], e, e.cols)])
        file == TLCEval(CS!Parse(e.file))
        head == CS!Header(file)
        back == [i \in 1..Len(rows) |-> [j \in 1..Len(head) |-> Untag(rows[i][CHOOSE k \in 1..Len(e.cols) : e.cols[k] = head[j]])]]
    IN Failing({<<"forNLP: exactly the columns asked for", Set(e.cols) = want /\ Len(e.cols) = Cardinality(want)>>,
                <<"forNLP: columns of equal length", e.even>>,
                <<"forNLP: one row per record, prepared as asked", (Set(e.cols) = want /\ e.even) => SameRows(rows, e.rows)>>})
       \cup (IF ~e.written \/ Set(e.cols) # want THEN {}
             ELSE Failing({<<"forNLP: the file has the columns", Set(head) = want /\ Len(head) = Cardinality(want)>>,
                           <<"forNLP: the file has the rows", (Set(head) = want) => SameRows(TLCEval(back), CS!Body(file))>>}))
BurstRows(p, e) ==
    IF ~There(View(p.src, p.f, "year")) \/ ~There(View(p.src, p.f, e.tag)) THEN <<>>
    ELSE LET w == TLCEval(TP!Words(Cell(p, e.tag, " "), e.o)) IN [i \in 1..Len(w) |-> <<Cell(p, "year", ""), w[i]>>]
BurstStep(q, e) ==
    LET rows == TLCEval(FlattenSeqs([i \in 1..Len(q.pool) |-> BurstRows(q.pool[i], e)]))
    IN Failing({<<"forBurst: exactly the words of the field with their years", SameRows(rows, e.rows)>>,
                <<"forBurst: the file has the rows", e.written => SameRows(rows, LET t == CS!Parse(e.file) IN IF t # <<>> /\ t[1] = <<"year", "word">> THEN CS!Body(t) ELSE t)>>})
CopyrightStep(q, e) ==
    Failing({<<"findProbableCopyright: exactly the statements of the abstracts", Set(e.found) = {TP!Copyright(Abstract(q.pool[i])).statement : i \in 1..Len(q.pool)} \ {""}>>,
             <<"findProbableCopyright: each once", Len(e.found) = Cardinality(Set(e.found))>>})
MyStep(q, e) == [st |-> q, bad |->
    CASE e.op = "nlp" -> NlpStep(q, e)
      [] e.op = "burst" -> BurstStep(q, e)
      [] e.op = "copyright" -> CopyrightStep(q, e)
      [] e.op = "after" -> Failing({<<"the collection, its records and the lists given are as before", e.same>>})]
===============================================================================
