----------------------------- MODULE MC_GrantText -----------------------------
(* Grant strings: the parts spell the string, and the parts are distinct fields. *)
EXTENDS MKGrants, Json
CONSTANTS Len1
Alphabet == {"CA", "x", "", "R01 GM1", "NIH HHS", "a, b", "United States"}
VARIABLES parts
Init == parts = <<>>
Next == Len(parts) < Len1 /\ \E p \in Alphabet : parts' = Append(parts, p)
Spec == Init /\ [][Next]_parts
EmitInit == parts = <<>>
EmitNext == Len(parts) < Len1 /\ \E p \in Alphabet : parts' = Append(parts, p) /\ PrintT("T " \o ToJson(parts'))
SpecEmit == EmitInit /\ [][EmitNext]_parts
M == Join(parts, "/")
S == Join(parts, ", ")
Slashed == parts # <<>> => MedlineSpelt(MedlineGrant(M)) = M
Commas  == parts # <<>> => ScopusSpelt(ScopusGrant(S)) = S
OnePer(g) == \A f, h \in g : f.k = h.k => f = h
Fields == parts # <<>> => OnePer(MedlineGrant(M)) /\ OnePer(ScopusGrant(S))
=============================================================================
