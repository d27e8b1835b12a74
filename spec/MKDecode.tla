------------------------------ MODULE MKDecode ------------------------------
(***************************************************************************)
(* What a record says.  A record is a source and its stored fields, a      *)
(* sequence of [t, v] (tag and stored lines; one text for Scopus).  Every  *)
(* value a lookup can give is a function of these alone:                   *)
(*   - a stored tag gives its lines decoded by the rule for the tag,       *)
(*   - the long name of a stored tag gives the same,                       *)
(*   - a common field gives what the source's rule makes of other lookups, *)
(*   - anything else is absent.                                            *)
(* Values are [k, v]: "s" text, "i" number, "l" list of texts, "c" list of *)
(* citations (by their text), "t" one citation, "g" list of grants (by     *)
(* their text), "m" list of lists (the parts of classifications), "d" the set of   *)
(* an author followed by what belongs to it, "a" absent.                                            *)
(***************************************************************************)
EXTENDS MKCommon, MKText

Val(k, v) == [k |-> k, v |-> v]
T(s) == Val("s", s)
N(n) == Val("i", n)
L(x) == Val("l", x)
Absent == Val("a", "")
Same(a, b) == a.k = b.k /\ a.v = b.v
There(a) == a.k # "a"

MapSeq(x, f(_)) == [i \in 1..Len(x) |-> f(x[i])]
SplitEach(x, sep) == FlattenSeqs([i \in 1..Len(x) |-> Split(x[i], sep)])

---------------------------------------------------------------------------
(* months *)
MonthNames == <<"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC">>
NamedMonth(u) == CASE u = "SPR" -> 3 [] u = "SUM" -> 6 [] u = "FAL" -> 9 [] u = "WIN" -> 12
                 [] OTHER -> IndexOf(MonthNames, u)
\* the first month of a range, the first month of a season, a number; 0 when it is none of these
MonthOf(s) == LET u == Upper(s) first == Split(u, "-")[1] p == Split(u, "-") last == p[Len(p)]
              IN IF NamedMonth(first) > 0 THEN NamedMonth(first)
                 ELSE IF IsDigits(last) THEN NatOf(last) ELSE NamedMonth(last)

---------------------------------------------------------------------------
(* Web of Science *)
WosPairs == {<<"PT", "pubType">>, <<"AF", "authorsFull">>, <<"GP", "group">>, <<"BE", "editedBy">>, <<"AU", "authorsShort">>, <<"BA",
    "bookAuthor">>, <<"BF", "bookAuthorFull">>, <<"CA", "groupName">>, <<"ED", "editors">>, <<"TI", "title">>, <<"SO", "journal">>, <<"SE",
    "seriesTitle">>, <<"BS", "seriesSubtitle">>, <<"LA", "language">>, <<"DT", "docType">>, <<"CT", "confTitle">>, <<"CY", "confDate">>,
    <<"HO", "confHost">>, <<"CL", "confLocation">>, <<"SP", "confSponsors">>, <<"DE", "authKeywords">>, <<"ID", "keywords">>, <<"AB",
    "abstract">>, <<"C1", "authAddress">>, <<"RP", "reprintAddress">>, <<"EM", "email">>, <<"RI", "ResearcherIDnumber">>, <<"OI", "orcID">>,
    <<"FU", "funding">>, <<"FX", "fundingText">>, <<"CR", "citations">>, <<"NR", "citedRefsCount">>, <<"TC", "wosTimesCited">>, <<"Z9",
    "totalTimesCited">>, <<"PU", "publisher">>, <<"PI", "publisherCity">>, <<"PA", "publisherAddress">>, <<"SC", "subjectCategory">>,
    <<"SN", "ISSN">>, <<"EI", "eISSN">>, <<"BN", "ISBN">>, <<"J9", "j9">>, <<"JI", "isoAbbreviation">>, <<"PD", "month">>, <<"PY", "year">>,
    <<"VL", "volume">>, <<"IS", "issue">>, <<"PN", "partNumber">>, <<"SU", "supplement">>, <<"SI", "specialIssue">>, <<"MA",
    "meetingAbstract">>, <<"BP", "beginningPage">>, <<"EP", "endingPage">>, <<"AR", "articleNumber">>, <<"PG", "pageCount">>, <<"WC",
    "subjects">>, <<"DI", "DOI">>, <<"D2", "bookDOI">>, <<"GA", "documentDeliveryNumber">>, <<"UT", "wosString">>, <<"PM", "pubMedID">>}
WFirst == {"PT", "GP", "CA", "DT", "CY", "J9", "SN", "AR", "IS", "EI", "DI", "UT", "MA", "D2", "RP", "PN", "SI", "PM", "GA"}
WFirstStripped == {"VL", "BP", "EP"}
WWrapped == {"TI", "SE", "BS", "CT", "CL", "HO", "FX", "SU", "PA"}
WWrappedUpper == {"SO", "PI", "JI", "PU"}
WSemicolon == {"FU", "SC", "EM", "OI", "BN", "RI", "WC"}
WNumber == {"TC", "PG", "NR", "Z9"}
WAddress(a) == IF StartsWith(a, "[") /\ Contains(a, "] ") THEN From(a, Find(a, "] ") + 2) ELSE a
WDecode(t, v) ==
  CASE t \in WFirst -> T(v[1])
    [] t \in WFirstStripped -> T(Strip(v[1]))
    [] t \in WWrapped -> T(Join(v, " "))
    [] t \in WWrappedUpper -> T(Upper(Join(v, " ")))
    [] t \in WSemicolon -> L(Split(Join(v, " "), "; "))
    [] t \in WNumber -> N(IntOf(v[1]))
    [] t = "LA" -> T(Join(v, ", "))
    [] t = "SP" -> L(Split(Join(v, ", "), ", "))
    [] t = "DE" -> L(Split(Lower(Join(v, " ")), "; "))
    [] t = "ID" -> L(Split(Upper(Join(v, " ")), "; "))
    [] t = "AB" -> T(Join(v, "\n"))
    [] t = "PD" -> N(MonthOf(Split(v[1], " ")[1]))
    [] t = "PY" -> N(IntOf(v[1]))
    [] t = "CR" -> Val("c", v)
    [] t = "C1" -> L(MapSeq(v, WAddress))
    [] OTHER -> L(v)

---------------------------------------------------------------------------
(* Medline *)
MedlinePairs == {<<"AB", "Abstract">>, <<"CI", "CopyrightInformation">>, <<"AD", "Affiliation">>, <<"IRAD", "InvestigatorAffiliation">>,
    <<"AID", "ArticleIdentifier">>, <<"AU", "Author">>, <<"AUID", "AuthorIdentifier">>, <<"FAU", "FullAuthor">>, <<"BTI", "BookTitle">>,
    <<"CTI", "CollectionTitle">>, <<"CN", "CorporateAuthor">>, <<"CRDT", "CreateDate">>, <<"DCOM", "DateCompleted">>, <<"DA",
    "DateCreated">>, <<"LR", "DateLastRevised">>, <<"DEP", "DateElectronicPublication">>, <<"DP", "DatePublication">>, <<"EN", "Edition">>,
    <<"FED", "Editor">>, <<"EDAT", "EntrezDate">>, <<"GS", "GeneSymbol">>, <<"GN", "GeneralNote">>, <<"GR", "GrantNumber">>, <<"IR",
    "Investigator">>, <<"FIR", "InvestigatorFull">>, <<"IS", "ISSN">>, <<"IP", "Issue">>, <<"TA", "JournalTitleAbbreviation">>, <<"JT",
    "JournalTitle">>, <<"LA", "Language">>, <<"LID", "LocationIdentifier">>, <<"MID", "ManuscriptIdentifier">>, <<"MHDA", "MeSHDate">>,
    <<"MH", "MeSHTerms">>, <<"JID", "NLMID">>, <<"RF", "NumberReferences">>, <<"OABL", "OtherAbstract">>, <<"OCI", "OtherCopyright">>,
    <<"OID", "OtherID">>, <<"OT", "OtherTerm">>, <<"OTO", "OtherTermOwner">>, <<"OWN", "Owner">>, <<"PG", "Pagination">>, <<"PS",
    "PersonalNameSubject">>, <<"FPS", "FullPersonalNameSubject">>, <<"PL", "PlacePublication">>, <<"PHST", "PublicationHistoryStatus">>,
    <<"PST", "PublicationStatus">>, <<"PT", "PublicationType">>, <<"PUBM", "PublishingModel">>, <<"PMC", "PubMedCentralIdentifier">>,
    <<"PMCR", "PubMedCentralRelease">>, <<"PMID", "PubMedUniqueIdentifier">>, <<"RN", "RegistryNumber">>, <<"NM", "SubstanceName">>, <<"SI",
    "SecondarySourceID">>, <<"SO", "Source">>, <<"SFM", "SpaceFlightMission">>, <<"STAT", "Status">>, <<"SB", "Subset">>, <<"TI", "Title">>,
    <<"TT", "TransliteratedTitle">>, <<"VI", "Volume">>, <<"VTI", "VolumeTitle">>, <<"CIN", "CommentIn">>, <<"EIN", "ErratumIn">>, <<"EFR",
    "ErratumFor">>, <<"CRI", "CorrectedRepublishedIn">>, <<"CRF", "CorrectedRepublishedFrom">>, <<"DDIN", "DatasetIn">>, <<"DRIN",
    "DatasetUseReportedIn">>, <<"PRIN", "PartialRetractionIn">>, <<"PROF", "PartialRetractionOf">>, <<"RPI", "RepublishedIn">>, <<"RPF",
    "RepublishedFrom">>, <<"RIN", "RetractionIn">>, <<"ROF", "RetractionOf">>, <<"UIN", "UpdateIn">>, <<"UOF", "UpdateOf">>, <<"SPIN",
    "SummaryForPatients">>, <<"ORI", "OriginalReportIn">>}
MFirst == {"PG", "VI", "DP", "TI", "OTO", "AB", "TA", "JT"}
\* what belongs to an author: every address, of wrapped ones the words apart; the last identifier
Owner(x) == Split(x, " : ")[1]
Rest(x) == LET k == Find(x, " : ") IN IF k = 0 THEN "" ELSE From(x, k + 3)
LastOf(v, a) == v[CHOOSE i \in 1..Len(v) : Owner(v[i]) = a /\ \A j \in (i + 1)..Len(v) : Owner(v[j]) # a]
Owners(v) == {Owner(v[i]) : i \in 1..Len(v)}
Addresses(v, a) == FlattenSeqs([i \in 1..Len(v) |-> IF Owner(v[i]) # a THEN <<>>
                                ELSE SelectSeq(Split(Replace(Rest(v[i]), "\n", " "), ";"), LAMBDA s : s # "")])
MDecode(t, v) ==
  CASE t \in MFirst -> T(v[1])
    [] t = "PMID" -> T("PMID:" \o v[1])
    [] t = "AD" -> Val("d", {<<a>> \o Addresses(v, a) : a \in Owners(v)})
    [] t = "AUID" -> Val("d", {<<a, Rest(LastOf(v, a))>> : a \in Owners(v)})
    [] t = "GR" -> Val("g", v)
    [] OTHER -> L(v)

---------------------------------------------------------------------------
(* Scopus *)
SNumber == {"Year", "Page count", "Cited by", "Conference code"}
SSemicolon == {"Authors with affiliations", "Author Keywords", "Index Keywords", "Tradenames", "Manufacturers",
               "Correspondence Address", "ISBN", "Language of Original Document"}
SDecode(t, v) ==
  CASE t = "Authors" -> L(Split(v[1], ", "))
    [] t \in SNumber -> N(IntOf(v[1]))
    [] t \in SSemicolon -> L(Split(v[1], "; "))
    [] t = "Sponsors" -> L(Split(v[1], ";"))
    [] t = "Funding Details" -> Val("g", Split(v[1], "; "))
    [] t = "References" -> Val("c", Split(v[1], "; "))
    [] OTHER -> T(v[1])

---------------------------------------------------------------------------
(* ProQuest *)
PFirst == {"Author", "Title", "Advisor", "Name", "Committee member", "Copyright", "Country of publication", "Database", "Degree", "Degree date",
           "Department", "Dissertation/thesis number", "Document type", "Language", "Number of pages", "Place of publication", "ProQuest document ID",
           "Publication year", "School code", "Source", "Source type", "University location", "University/institution", "ISBN", "Publication subject"}
PDecode(t, v) ==
  CASE t \in PFirst -> T(v[1])
    [] t = "Subject" -> L(SplitEach(v, "; "))
    [] t = "Identifier / keyword" -> L(SplitEach(v, ", "))
    [] t = "Classification" -> Val("m", MapSeq(SplitEach(v, "; "), LAMBDA s : Split(s, ": ")))
    [] OTHER -> L(v)

---------------------------------------------------------------------------
(* a lookup *)
Decode(src, t, v) == CASE src = "W" -> WDecode(t, v) [] src = "M" -> MDecode(t, v) [] src = "S" -> SDecode(t, v) [] OTHER -> PDecode(t, v)
Pairs(src) == CASE src = "W" -> WosPairs [] src = "M" -> MedlinePairs [] OTHER -> {}
\* the tag a name stands for ("" when it stands for none)
TagOf(src, key) == LET P == {p \in Pairs(src) : p[2] = key} IN IF P = {} THEN "" ELSE (CHOOSE p \in P : TRUE)[1]
NameOf(src, t) == LET P == {p \in Pairs(src) : p[1] = t} IN IF P = {} THEN "" ELSE (CHOOSE p \in P : TRUE)[2]

StoredAt(f, t) == LET I == {i \in 1..Len(f) : f[i].t = t} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Has(f, t) == StoredAt(f, t) > 0
Raw(f, t) == f[StoredAt(f, t)].v
Stored(src, f, t) == IF Has(f, t) THEN Decode(src, t, Raw(f, t)) ELSE Absent

\* the first run of one to four digits of a text, with its sign
YearIn(w) ==
  IF IsDigits(w) THEN NatOf(w)
  ELSE IF \A i \in 1..Len(w) : Ch(w, i) \notin DigitSet THEN 0
  ELSE LET i == CHOOSE i \in 1..Len(w) : Ch(w, i) \in DigitSet /\ \A j \in 1..(i - 1) : Ch(w, j) \notin DigitSet
           k == RunIn(w, i, DigitSet)
           y == NatOf(SubSeq(w, i, i + (IF k > 4 THEN 4 ELSE k) - 1))
           neg == i > 1 /\ Ch(w, i - 1) = "-"
       IN IF neg /\ i = 2 /\ i + k - 1 = Len(w) THEN 0 - NatOf(SubSeq(w, i, Len(w))) ELSE IF neg THEN 0 - y ELSE y
PageIn(p) == LET q == IF StartsWith(p, "suppl ") THEN From(p, 7) ELSE p
             IN Replace(Split(Split(q, " ")[1], "-")[1], ";", "")
DoiIn(v) == LET I == {i \in 1..Len(v) : EndsWith(v[i], " [doi]")}
            IN IF I = {} THEN Absent ELSE LET x == v[CHOOSE i \in I : \A j \in I : i <= j] IN T(Upto(x, Len(x) - 6))
FirstAddress(f) ==
  IF ~Has(f, "AD") \/ ~Has(f, "AU") THEN Absent
  ELSE LET a == Raw(f, "AU")[1]
       IN IF a \notin Owners(Raw(f, "AD")) THEN Absent
          ELSE LET x == Addresses(Raw(f, "AD"), a) IN IF x = <<>> THEN Absent ELSE T(x[1])

IdText(src, f) == CASE src = "W" -> Raw(f, "UT")[1] [] src = "M" -> "PMID:" \o Raw(f, "PMID")[1]
                    [] src = "S" -> "EID:" \o Raw(f, "EID")[1] [] OTHER -> "PROQUEST:" \o Raw(f, "ProQuest document ID")[1]

MRemap == [j9 |-> "TA", grants |-> "GR", authorsShort |-> "AU", authorsFull |-> "FAU", title |-> "TI", journal |-> "JT", keywords |-> "OT", abstract |-> "AB"]
MCommon(f, key) ==
  CASE key \in DOMAIN MRemap -> Stored("M", f, MRemap[key])
    [] key = "year" -> IF Has(f, "DP") THEN N(YearIn(Split(Raw(f, "DP")[1], " ")[1])) ELSE Absent
    [] key = "month" -> IF ~Has(f, "DP") THEN Absent
                        ELSE LET p == Split(Raw(f, "DP")[1], " ") IN IF Len(p) < 2 THEN Absent
                             ELSE IF MonthOf(p[2]) = 0 THEN Absent ELSE N(MonthOf(p[2]))
    [] key = "volume" -> IF Has(f, "VI") THEN T(Split(Raw(f, "VI")[1], " ")[1]) ELSE Absent
    [] key = "beginningPage" -> IF Has(f, "PG") THEN T(PageIn(Raw(f, "PG")[1])) ELSE Absent
    [] key = "DOI" -> IF Has(f, "AID") THEN DoiIn(Raw(f, "AID")) ELSE Absent
    [] key = "address" -> FirstAddress(f)
    [] OTHER -> Absent
SRemap == [year |-> "Year", volume |-> "Volume", beginningPage |-> "Page start", j9 |-> "Abbreviated Source Title", citations |-> "References",
           authorsShort |-> "Authors", authorsFull |-> "Authors", title |-> "Title", journal |-> "Source title", keywords |-> "Index Keywords",
           abstract |-> "Abstract", id |-> "EID"]
PCommon(f, key) ==
  CASE key \in {"authorsShort", "authorsFull"} -> IF Has(f, "Author") THEN L(<<Raw(f, "Author")[1]>>) ELSE Absent
    [] key = "beginningPage" -> N(0)
    [] key = "keywords" -> Stored("P", f, "Identifier / keyword")
    [] key = "abstract" -> IF Has(f, "Abstract") THEN T(Join(Raw(f, "Abstract"), " ")) ELSE Absent
    [] key = "year" -> IF Has(f, "Degree date") THEN N(IntOf(Raw(f, "Degree date")[1])) ELSE Absent
    [] key = "title" -> Stored("P", f, "Title")
    [] OTHER -> Absent
Common(src, f, key) ==
  CASE src = "S" -> IF key \in DOMAIN SRemap THEN Stored("S", f, SRemap[key]) ELSE Absent
    [] key = "id" -> T(IdText(src, f))
    [] src = "W" -> IF key = "grants" THEN L(<<>>) ELSE Absent
    [] src = "M" -> MCommon(f, key)
    [] OTHER -> PCommon(f, key)

Plain(src, f, key) ==
  IF Has(f, key) THEN Stored(src, f, key)
  ELSE IF TagOf(src, key) # "" /\ Has(f, TagOf(src, key)) THEN Stored(src, f, TagOf(src, key))
  ELSE IF NameOf(src, key) # "" /\ Has(f, NameOf(src, key)) THEN Stored(src, f, NameOf(src, key))
  ELSE Common(src, f, key)

---------------------------------------------------------------------------
(* the citation by which others cite the record: author, year, journal or title, volume, page, DOI *)
TextOf(x) == IF x.k = "i" THEN ToString(x.v) ELSE x.v
Says(x) == There(x) /\ (IF x.k = "i" THEN x.v # 0 ELSE IF x.k = "s" THEN x.v # "" ELSE Len(x.v) > 0)
Names(src, f) == LET a == Plain(src, f, "authorsShort") IN IF Says(a) THEN MapSeq(a.v, LAMBDA s : Replace(s, ",", "")) ELSE <<>>
CiteTail(src, f) ==
  LET y == Plain(src, f, "year") j == Plain(src, f, "j9") t == Plain(src, f, "title") v == Plain(src, f, "volume")
      p == Plain(src, f, "beginningPage") d == Plain(src, f, "DOI")
  IN (IF Says(y) THEN <<TextOf(y)>> ELSE <<>>)
     \o (IF Says(j) THEN <<j.v>> ELSE IF Says(t) THEN <<t.v>> ELSE <<>>)
     \o (IF Says(v) THEN <<"V" \o TextOf(v)>> ELSE <<>>) \o (IF Says(p) THEN <<"P" \o TextOf(p)>> ELSE <<>>)
     \o (IF Says(d) THEN <<"DOI " \o TextOf(d)>> ELSE <<>>)
SelfCite(src, f) == Join((IF Names(src, f) # <<>> THEN <<Names(src, f)[1]>> ELSE <<>>) \o CiteTail(src, f), ", ")
SelfCites(src, f) == IF Names(src, f) = <<>> THEN <<Join(CiteTail(src, f), ", ")>>
                     ELSE MapSeq(Names(src, f), LAMBDA a : Join(<<a>> \o CiteTail(src, f), ", "))

\* Scopus cites as author, title (year) journal, volume, PP. page
Said(x, before, after) == IF Says(x) THEN before \o TextOf(x) \o after ELSE ""
SCiteTail(f) ==
  Said(IF Has(f, "Title") THEN T(Replace(Replace(Raw(f, "Title")[1], "(", ""), ")", "")) ELSE Absent, "", " ")
  \o Said(Plain("S", f, "year"), "(", ") ") \o Said(Plain("S", f, "journal"), "", ", ")
  \o Said(Plain("S", f, "volume"), "", ", ") \o Said(Plain("S", f, "beginningPage"), "PP. ", "")
CiteText(src, f) == IF src # "S" THEN SelfCite(src, f)
                    ELSE (IF Names(src, f) # <<>> THEN Names(src, f)[1] \o ", " ELSE "") \o SCiteTail(f)
CiteTexts(src, f) == IF src # "S" THEN SelfCites(src, f)
                     ELSE IF Names(src, f) = <<>> THEN <<SCiteTail(f)>>
                     ELSE MapSeq(Names(src, f), LAMBDA a : a \o ", " \o SCiteTail(f))

View(src, f, key) == IF key = "selfCitation" THEN Val("t", CiteText(src, f))
                     ELSE Plain(src, f, key)
=============================================================================
