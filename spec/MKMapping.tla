------------------------------- MODULE MKMapping -------------------------------
(* A grant as a mapping from texts to texts that may be changed: a set of pairs, *)
(* at most one per key.                                                          *)
EXTENDS Naturals, Sequences
Keys(m)      == {p[1] : p \in m}
Val(m, k)    == IF k \in Keys(m) THEN (CHOOSE p \in m : p[1] = k)[2] ELSE ""
Put(m, k, v) == {p \in m : p[1] # k} \cup {<<k, v>>}
Del(m, k)    == {p \in m : p[1] # k}
\* the values of b replace those of a
Over(a, b)   == {p \in a : p[1] \notin Keys(b)} \cup b
\* the values of b are added to those of a, empty ones are none
Both(x, y)   == IF y = "" THEN x ELSE IF x = "" THEN y ELSE x \o "; " \o y
Fill(a, b)   == {<<p[1], Both(p[2], Val(b, p[1]))>> : p \in a} \cup {p \in b : p[1] \notin Keys(a) /\ p[2] # ""}
=============================================================================
