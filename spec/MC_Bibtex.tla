------------------------------ MODULE MC_Bibtex ------------------------------
(* Every short value, author text and key, written within every limit and mode.  *)
EXTENDS MKBibtex, Json
CONSTANTS MaxLen, Alphabet, CutTail, QuoteAlways, RawKey, DropQuotes
Alpha == {"a", "{", "}", QM, "#", ","}
VARIABLES v, max, wos, key, done
vars == <<v, max, wos, key, done>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Keys == {"W:1", "a, b", "x={y}", "q\"#", "two words"}
Init == /\ v \in {Concat(t) : t \in Texts} /\ max \in 1..3 /\ wos \in BOOLEAN /\ key \in Keys /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<v, max, wos, key>>
Spec == Init /\ [][Next]_vars
Shown(w) == IF ~wos /\ Len(w) > max /\ DropQuotes THEN Replace(w, QM, "") ELSE w
Cut(w) == IF CutTail /\ ~wos THEN Whole(Shown(w), max) ELSE Shown(w)
Entry == IF QuoteAlways THEN "@misc{ " \o Clean(key) \o ", f = " \o Quote(v) \o "}"
         ELSE IF RawKey THEN "@misc{ " \o key \o ", f = " \o WriteValue(v, max, wos) \o "}"
         ELSE WriteEntry(key, "A and B", <<<<"f g", Cut(v)>>, <<"n", "1">>>>, max, wos)
Last(r) == IF QuoteAlways \/ RawKey THEN r.fields[1] ELSE r.fields[2]
\* what was written is read back, two entries of a file apart
RoundTrip == Writable(v, max, wos) =>
    LET r == Read("%a comment\n\n" \o Entry \o "\n\n" \o Entry)
    IN r.ok /\ Len(r.x) = 2 /\ r.x[1] = r.x[2] /\ r.x[1].key = Clean(key) /\ TextOf(Last(r.x[1]).p) = v
\* no piece is longer than the limit
Short == (Writable(v, max, wos) /\ ~wos) => LET r == Read(Entry) IN r.ok => \A i \in 1..Len(Last(r.x[1]).p) : Len(Last(r.x[1]).p[i].t) <= max
           + 2 * Cardinality({j \in 1..Len(v) : Ch(v, j) \in {"{", "}"}})
Emit == (done /\ key = "W:1") => PrintT("B " \o ToJson([v |-> v, max |-> max, wos |-> wos]))
===============================================================================
