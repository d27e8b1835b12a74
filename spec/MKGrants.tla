------------------------------- MODULE MKGrants -------------------------------
(***************************************************************************)
(* Grants: tables (NSERC, CIHR, other CSV) and NSF awards, merging of       *)
(* grants spread over rows and files, grant strings of Medline and Scopus   *)
(* records, and the names a grant contributes to co-investigator networks.  *)
(*                                                                          *)
(* A grant is a sequence of fields [k, kind, v]: kind "text" (v = <<text>>),*)
(* "list" (v its texts) or "none" (v = <<>>).                               *)
(***************************************************************************)
EXTENDS MKTags

Keys(g) == {g[i].k : i \in 1..Len(g)}
FieldOf(g, k) == g[CHOOSE i \in 1..Len(g) : g[i].k = k]

(*------------------------------ merging rows ------------------------------*)
\* A row is a sequence of cells, one per column; a row cut short has empty cells at its end.
Padded(row, n) == [i \in 1..n |-> IF i <= Len(row) THEN row[i] ELSE ""]
\* what reading one more row of the same grant does to one value
MergeCell(old, new) == IF new = "" THEN old ELSE IF old = "" THEN new ELSE old \o "; " \o new
\* closed form: all non-empty values, in order
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # "")
MergedCell(q) == Join(NonEmpty(q), "; ")
\* rows (sequences of padded cells) of key k, key column kc
RowsOfKey(rows, kc, k) == SelectSeq(rows, LAMBDA r : r[kc] = k)
KeysIn(rows, kc) == {rows[i][kc] : i \in 1..Len(rows)} \ {""}
\* the merged grant of key k over the rows of all the files, in reading order
MergedGrant(rows, kc, k, n) == LET mine == RowsOfKey(rows, kc, k)
                               IN [c \in 1..n |-> MergedCell([i \in 1..Len(mine) |-> mine[i][c]])]
Keyless(rows, kc) == SelectSeq(rows, LAMBDA r : r[kc] = "")

(*------------------------------ NSF awards --------------------------------*)
\* award: sequence of elements [tag, text, sub] ; sub = sequence of [tag, text, sub];
\* text "" is an element without text
Texts(sub) == NonEmpty([i \in 1..Len(sub) |-> sub[i].text])
Named(q, tag) == SelectSeq(q, LAMBDA x : x.tag = tag)
\* the lists of texts found in the children called t of the organisations
OrgList(award, t) == LET orgs == Named(award, "Organization")
                         one(o) == LET h == Named(o.sub, t) IN IF h = <<>> THEN <<>> ELSE LET q == Texts(h[1].sub) IN IF q = <<>> THEN <<>> ELSE <<Join(q, "; ")>>
                     IN FlattenSeqs([i \in 1..Len(orgs) |-> one(orgs[i])])
Reversed(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
InvString(o) == LET first == Reversed(Texts(Named(o.sub, "FirstName")))
                    last  == Texts(Named(o.sub, "LastName"))
                    other == Texts(SelectSeq(o.sub, LAMBDA x : x.tag \notin {"FirstName", "LastName"}))
                IN Join(first \o last, " ") \o "; " \o Join(other, ", ")
InvList(award) == LET q == Named(award, "Investigator") IN [i \in 1..Len(q) |-> InvString(q[i])]
\* value of any other element name: a list when some element of that name has children
PlainField(award, tag) ==
    LET q == Named(award, tag)
        nested == SelectSeq(q, LAMBDA x : x.sub # <<>>)
        texts == Texts(q)
    IN IF nested # <<>> THEN [k |-> tag, kind |-> "list", v |-> [i \in 1..Len(nested) |-> Join(Texts(nested[i].sub), "; ")]]
       ELSE IF texts # <<>> THEN [k |-> tag, kind |-> "text", v |-> <<texts[1]>>]
       ELSE [k |-> tag, kind |-> "none", v |-> <<>>]
ListField(tag, q) == IF q = <<>> THEN {} ELSE {[k |-> tag, kind |-> "list", v |-> q]}
AwardFields(award) ==
    {PlainField(award, t) : t \in {award[i].tag : i \in 1..Len(award)} \ {"Organization", "Investigator"}}
    \cup ListField("Directorate", OrgList(award, "Directorate")) \cup ListField("Division", OrgList(award, "Division"))
    \cup ListField("Investigator", InvList(award))

(*---------------------------- grant strings -------------------------------*)
\* number/code/agency/country: what is before the agency is the number, and the code when it has two letters
MedlineGrant(s) ==
    LET p == Split(s, "/")
        n == Len(p)
        head == SubSeq(p, 1, n - 2)
    IN IF n = 1 THEN {[k |-> "country", v |-> s]}
       ELSE {[k |-> "country", v |-> p[n]], [k |-> "agency", v |-> p[n - 1]]} \cup
            (IF n = 3 THEN (IF Len(p[1]) = 2 THEN {[k |-> "code", v |-> p[1]]} ELSE {[k |-> "number", v |-> p[1]]})
             ELSE IF n = 4 /\ Len(p[2]) = 2 THEN {[k |-> "code", v |-> p[2]], [k |-> "number", v |-> p[1]]}
             ELSE IF n > 2 THEN {[k |-> "number", v |-> Join(head, "/")]} ELSE {})
\* nothing is lost: the parts in order spell the string
Part(g, k) == LET h == {f \in g : f.k = k} IN IF h = {} THEN <<>> ELSE <<(CHOOSE f \in h : TRUE).v>>
MedlineSpelt(g) == Join(Part(g, "number") \o Part(g, "code") \o Part(g, "agency") \o Part(g, "country"), "/")
ScopusGrant(s) ==
    LET p == Split(s, ", ")
        n == Len(p)
    IN {[k |-> "agency", v |-> p[n]]} \cup (IF n > 1 THEN {[k |-> "agencyCode", v |-> p[n - 1]]} ELSE {})
       \cup (IF n > 2 THEN {[k |-> "code", v |-> Join(SubSeq(p, 1, n - 2), ", ")]} ELSE {})
ScopusSpelt(g) == Join(Part(g, "code") \o Part(g, "agencyCode") \o Part(g, "agency"), ", ")

(*-------------------------------- names -----------------------------------*)
\* the fields that hold names: what the kind of grant knows, and what was asked for
Own(kind, g, level) ==
    CASE kind = "NSERC" -> {k \in Keys(g) : Contains(Lower(k), IF level = "people" THEN "name-" ELSE "institution")}
      [] kind = "NSF" -> Keys(g) \cap {IF level = "people" THEN "Investigator" ELSE "Institution"}
      [] OTHER -> {}
Names(f, sep) == CASE f.kind = "text" -> LET q == Split(f.v[1], sep) IN [i \in 1..Len(q) |-> Strip(q[i])]
                   [] f.kind = "list" -> [i \in 1..Len(f.v) |-> Strip(Split(f.v[i], sep)[1])]
                   [] f.kind = "none" -> <<>>
NameFields(kind, g, tags, level) == SelectSeq(g, LAMBDA f : f.k \in (Own(kind, g, level) \cup SeqRange(tags)))
\* the row (one sequence of names per field) a grant contributes
NameRow(kind, g, tags, sep, level) == LET q == NameFields(kind, g, tags, level) IN [i \in 1..Len(q) |-> Names(q[i], sep)]
=============================================================================
