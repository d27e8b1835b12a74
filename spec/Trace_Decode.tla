---------------------------- MODULE Trace_Decode ----------------------------
EXTENDS MKTrace, MKDecode
\* events: [op "look", key, val, has] what fresh lookups of key gave and whether the key is in the record;
\*         [op "raw", key, val] the stored lines; [op "cites", v] the citations of every author;
\*         [op "own", v] what the citations of a Scopus record tell; [op "names", title, authors] the properties
As(x) == IF x.k = "d" THEN [k |-> "d", v |-> {x.v[i] : i \in 1..Len(x.v)}] ELSE x
MyInit(c) == [src |-> c.src, f |-> c.f]
Or(a, b) == IF There(a) THEN a ELSE b
\* an error of decoding is reported as kind "exc"
MyStep(s, e) == [st |-> s, bad |->
  CASE e.op = "look" ->
         LET w == View(s.src, s.f, e.key)
         IN Failing({<<"value of " \o s.src \o " " \o e.key, Same(w, As(e.val))>>,
                     <<"membership of " \o s.src \o " " \o e.key, There(w) = e.has>>})
    [] e.op = "raw" ->
         LET t == IF Has(s.f, e.key) THEN e.key ELSE IF TagOf(s.src, e.key) # "" THEN TagOf(s.src, e.key) ELSE NameOf(s.src, e.key)
         IN Failing({<<"raw value", e.v = (IF Has(s.f, t) THEN Raw(s.f, t) ELSE <<>>)>>})
    [] e.op = "cites" -> Failing({<<"citations of all authors", e.v = CiteTexts(s.src, s.f)>>})
    [] e.op = "own" ->   \* one that cannot be read back still tells the year, the title and the journal
         LET y == Plain(s.src, s.f, "year")
             text(k) == LET x == Plain(s.src, s.f, k) IN IF There(x) THEN Upper(TextOf(x)) ELSE ""
             Plainly(k) == ~Contains(text(k), "\\")   \* letters whose upper case is known here
         IN Failing({<<"year of the own citation", \A i \in 1..Len(e.v) : (e.v[i].bad \/ There(y)) => e.v[i].year = (IF There(y) THEN TextOf(y) ELSE "0")>>,
                     <<"title of the own citation", \A i \in 1..Len(e.v) : (e.v[i].bad /\ Plainly("title")) => e.v[i].name = text("title")>>,
                     <<"journal of the own citation", \A i \in 1..Len(e.v) : (e.v[i].bad /\ Plainly("journal")) => e.v[i].journal = text("journal")>>})
    [] e.op = "names" -> Failing({<<"title", Same(As(e.title), Or(Plain(s.src, s.f, "title"), T("Untitled record")))>>,
                                  <<"authors", Same(As(e.authors), Or(Plain(s.src, s.f, "authorsFull"), Plain(s.src, s.f, "authorsShort")))>>})]
=============================================================================
