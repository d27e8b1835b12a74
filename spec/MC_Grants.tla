------------------------------ MODULE MC_Grants ------------------------------
(* Reading the rows of the files one by one, merging into the grants read so   *)
(* far, gives the closed form; each key gives one grant and nothing is lost.   *)
EXTENDS MKGrants, Json
CONSTANTS Rows
Ks == {"", "A", "B"}
Vs == {"", "x", "y z"}
VARIABLES rows, grants, fin
vars == <<rows, grants, fin>>
\* rows: <<key, value, file>>; grants: function from key to the merged value
RowSet == [k : Ks, v : Vs, f : {1, 2}]
Init == rows = <<>> /\ grants = [k \in {"A", "B"} |-> <<>>] /\ fin = FALSE
Add(r) == /\ Len(rows) < Rows
          /\ (Len(rows) > 0 => r.f >= rows[Len(rows)].f)
          /\ rows' = Append(rows, r)
          /\ grants' = IF r.k = "" THEN grants
                       ELSE [grants EXCEPT ![r.k] = IF @ = <<>> THEN <<r.v>> ELSE <<MergeCell(@[1], r.v)>>]
          /\ UNCHANGED fin
Next == \E r \in RowSet : Add(r)
Spec == Init /\ [][Next]_vars
Finish == /\ Len(rows) > 0 /\ ~fin
          /\ fin' = TRUE
          /\ PrintT("T " \o ToJson(rows))
          /\ UNCHANGED <<rows, grants>>
SpecEmit == Init /\ [][(~fin /\ Next) \/ Finish]_vars

cells == [i \in 1..Len(rows) |-> <<rows[i].k, rows[i].v>>]
MergeClosed == \A k \in {"A", "B"} : IF k \in KeysIn(cells, 1) THEN grants[k] = <<MergedGrant(cells, 1, k, 2)[2]>> ELSE grants[k] = <<>>
\* every non-empty value of the grant is a part of the merged text, and no other
NothingLost == \A k \in KeysIn(cells, 1) : SameBag(NonEmpty(Split(grants[k][1], "; ")), NonEmpty([i \in 1..Len(RowsOfKey(cells, 1, k)) |-> RowsOfKey(cells, 1, k)[i][2]]))
\* rows of other keys have no influence
Local == \A k \in KeysIn(cells, 1) : MergedGrant(cells, 1, k, 2) = MergedGrant(RowsOfKey(cells, 1, k), 1, k, 2)
=============================================================================
