----------------------------- MODULE MC_Citation -----------------------------
(* Every combination of present and absent parts: parsing the rendered text   *)
(* gives exactly the parts.  Every state is one conformance case.             *)
EXTENDS MKCitation, Json
CONSTANTS Authors, Years, Journals, Vs, Ps, Dois, Miscs
YearsQ == {1999, 0 - 350, NoYear}
YearsT == {1999, 0, 0 - 55, NoYear}
VARIABLES part, text, done
vars == <<part, text, done>>
Init == /\ part \in [author: Authors, year: Years, journal: Journals, V: Vs, P: Ps, DOI: Dois, misc: Miscs]
        /\ text = "" /\ done = FALSE
Render == ~done /\ text' = RenderWOS(part) /\ done' = TRUE /\ UNCHANGED part
Next == Render
Spec == Init /\ [][Next]_vars

C == ParseWOS(text)
\* author, year and journal present: every part comes back as it went in (V and P need the journal before them)
PartsComeBack ==
  (done /\ part.author # "" /\ part.year # NoYear /\ part.journal # "") =>
     /\ C.author = Title(Replace(Upper(part.author), ".", ""))
     /\ C.year = part.year /\ C.journal = Upper(part.journal)
     /\ C.V = Upper(part.V) /\ C.P = Upper(part.P) /\ C.DOI = Upper(part.DOI) /\ C.misc = Upper(part.misc)
     /\ (C.bad <=> part.misc # "")
     /\ C.id = C.author \o ", " \o YearText(part.year) \o ", " \o Upper(part.journal)
\* a missing author, year or journal always makes the citation bad or shifts no text out of it: nothing is lost
NothingLost ==
  done => LET all == Upper(C.author \o YearText(C.year) \o C.journal \o C.V \o C.P \o C.DOI \o C.misc)
          IN \A x \in {part.journal, part.V, part.P, part.DOI, part.misc} : x # "" => Contains(Replace(all, ".", ""), Replace(Upper(x), ".", ""))
Incomplete == (done /\ (part.author = "" \/ part.year = NoYear) /\ part.misc = "") => C.bad
Emit == done => PrintT("T " \o ToJson([text |-> text]))
=============================================================================
