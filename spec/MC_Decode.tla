------------------------------ MODULE MC_Decode ------------------------------
(* Records of up to two fields besides the identifier, over small values:    *)
(* what decoding keeps, and that what a lookup gives is independent of the   *)
(* other stored fields except where a common field is made of several.       *)
EXTENDS MKDecode, TLC, Json

CONSTANT MaxFields

Opt(t, V) == {[t |-> t, v |-> v] : v \in V}
Opts == [W |-> Opt("TI", {<<"A b">>, <<"A", "b; c">>}) \cup Opt("SO", {<<"Ab", "c">>}) \cup Opt("AF", {<<"Lee, K">>, <<"Lee, K", "Oh, A">>, <<"">>})
              \cup Opt("AU", {<<"Lee, K", "Oh, A", "Lee, K">>}) \cup Opt("DE", {<<"A; b;", "C">>, <<"">>}) \cup Opt("ID", {<<"aB; c", "d; e">>})
              \cup Opt("PY", {<<"2005">>}) \cup Opt("PD", {<<"FEB-MAR">>, <<"7 X">>, <<"WIN">>}) \cup Opt("C1", {<<"[Lee, K; Oh, A] X Univ, Y", "Z">>})
              \cup Opt("CR", {<<"A B, 2000, J", "A B, 2000, J">>}) \cup Opt("AB", {<<"a", "b">>}) \cup Opt("SP", {<<"A, B", "C">>}) \cup Opt("LA", {<<"A", "B">>})
              \cup Opt("BP", {<<" 12 ">>}) \cup Opt("TC", {<<"012">>}) \cup Opt("J9", {<<"Jx", "y">>}) \cup Opt("ZZ", {<<"q", "r">>}) \cup Opt("DI", {<<"10.1/a">>}),
         M |-> Opt("TI", {<<"A\nb">>}) \cup Opt("AU", {<<"Lee K", "Oh A">>}) \cup Opt("FAU", {<<"Lee, K", "Oh, A">>})
              \cup Opt("AD", {<<"Lee K : X; Y;Z", "Oh A : Q">>, <<"Oh A : X", "Lee K : ;">>, <<"Lee K : a", "Lee K : b">>}) \cup Opt("AUID", {<<"Oh A : 1 : 2", "Lee K : 3">>})
              \cup Opt("DP", {<<"2005 Jan-Feb">>, <<"2005">>, <<"1998-1999 Spring">>, <<"a98">>, <<"x Sum">>}) \cup Opt("PG", {<<"12-5">>, <<"suppl 3; 4">>, <<"S1">>})
              \cup Opt("VI", {<<"3 Pt 1">>}) \cup Opt("AID", {<<"S12 [pii]", "10.1/a [doi]", "10.1/b [doi]">>, <<"x [pii]">>}) \cup Opt("TA", {<<"J X">>})
              \cup Opt("OT", {<<"a", "b">>}) \cup Opt("GR", {<<"R1/AB/NIH/US", "R1/AB/NIH/US">>}) \cup Opt("AB", {<<"q\nr">>}) \cup Opt("QQ", {<<"z">>}),
         S |-> Opt("Authors", {<<"Lee K., Oh A.">>, <<"Lee K.">>}) \cup Opt("Title", {<<"A (b) c">>}) \cup Opt("Year", {<<"2005">>}) \cup Opt("Source title", {<<"J x">>})
              \cup Opt("Volume", {<<"3">>}) \cup Opt("Page start", {<<"12">>}) \cup Opt("Cited by", {<<"07">>}) \cup Opt("References", {<<"A B, T (2000) J; C, U (2001) K">>})
              \cup Opt("Funding Details", {<<"a, b; c">>}) \cup Opt("Author Keywords", {<<"A; b;c">>}) \cup Opt("Index Keywords", {<<"x">>}) \cup Opt("Sponsors", {<<"A;B; C">>})
              \cup Opt("DOI", {<<"10.1/a">>}) \cup Opt("Abbreviated Source Title", {<<"JX">>}) \cup Opt("Language of Original Document", {<<"En; Fr">>}) \cup Opt("Other", {<<"a; b">>}),
         P |-> Opt("Author", {<<"Lee, Kim", "Oh">>}) \cup Opt("Title", {<<"A b", "c">>}) \cup Opt("Abstract", {<<"a", "b">>}) \cup Opt("Degree date", {<<"2014">>})
              \cup Opt("Identifier / keyword", {<<"a, b", "c">>}) \cup Opt("Subject", {<<"a; b", "c; d">>, <<"a">>}) \cup Opt("Classification", {<<"0338: Soc; 0700", "1: a: b">>})
              \cup Opt("Advisor", {<<"x", "y">>}) \cup Opt("Links", {<<"x", "y">>}) \cup Opt("ISBN", {<<"9">>})]
IdField == [W |-> [t |-> "UT", v |-> <<"WOS:1">>], M |-> [t |-> "PMID", v |-> <<"1">>],
            S |-> [t |-> "EID", v |-> <<"2-s2.0-1">>], P |-> [t |-> "ProQuest document ID", v |-> <<"1">>]]
VARIABLES src, f
vars == <<src, f>>
Init == src \in {"W", "M", "S", "P"} /\ f = <<IdField[src]>>
Next == /\ Len(f) <= MaxFields
        /\ \E o \in Opts[src] : ~Has(f, o.t) /\ f' = Append(f, o)
        /\ UNCHANGED src
Spec == Init /\ [][Next]_vars
Emit == Len(f) > 1 => PrintT("R " \o ToJson([src |-> src, f |-> f]))

Keys == {f[i].t : i \in 1..Len(f)}
\* what is stored is there, and its long name says the same
NamesAgree == \A k \in Keys : /\ There(View(src, f, k))
                              /\ NameOf(src, k) # "" => Same(View(src, f, NameOf(src, k)), View(src, f, k))
\* no text is lost: the elements of a separated list make up the stored lines, in order
NothingLost == \A k \in Keys : LET w == View(src, f, k) v == Raw(f, k) IN
   /\ (src = "W" /\ k \in WSemicolon) => Join(w.v, "; ") = Join(v, " ")
   /\ (src = "W" /\ k = "ID") => Join(w.v, "; ") = Upper(Join(v, " "))
   /\ (src = "W" /\ k = "CR") => w.v = v
   /\ (src = "S" /\ k \in {"References", "Funding Details"} \cup SSemicolon) => Join(w.v, "; ") = v[1]
   /\ (src = "S" /\ k = "Authors") => Join(w.v, ", ") = v[1]
   /\ (src = "P" /\ k = "Subject") => \A i \in 1..Len(v) : \A s \in {Split(v[i], "; ")[j] : j \in 1..Len(Split(v[i], "; "))} : s \in {w.v[j] : j \in 1..Len(w.v)}
   /\ (src \in {"W", "M"} /\ w.k = "l" /\ k \in {"AF", "AU", "FAU", "OT", "AID"}) => w.v = v
\* the last stored field does not change what another tag says
Independent == Len(f) > 1 => \A k \in {f[i].t : i \in 1..(Len(f) - 1)} : Same(View(src, f, k), View(src, SubSeq(f, 1, Len(f) - 1), k))
\* the order of the fields is immaterial
OrderFree == Len(f) = 3 => \A k \in Keys \cup {"year", "title", "selfCitation", "address", "DOI", "authorsShort", "month"} :
                             Same(View(src, f, k), View(src, <<f[1], f[3], f[2]>>, k))
=============================================================================
