------------------------------ MODULE MKDiffusion ------------------------------
(***************************************************************************)
(* Diffusion: how the records of one collection (the sources) are cited by *)
(* the records of another (the targets).  A record is                      *)
(*   [id, vals: set of values of the field asked for,                      *)
(*    own: set of the citations by which it is cited,                      *)
(*    cites: sequence of the citations it makes,                           *)
(*    extra: sequence of the values its citations are broken down by]      *)
(* Sources is the sequence of the cited, Targets that of the citing.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumUpTo(_, _)
SumUpTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumUpTo(f, n - 1)
SumSeq(f) == SumUpTo(f, Len(f))
Times(x, s) == Cardinality({i \in 1..Len(s) : s[i] = x})

\* how often target t cites source s
Hits(s, t) == Cardinality({i \in 1..Len(t.cites) : t.cites[i] \in s.own})
ValuesIn(S) == UNION {S[i].vals : i \in 1..Len(S)}
\* how often the sources with value v are cited by target t
HitsOf(S, v, t) == SumSeq([i \in 1..Len(S) |-> IF v \in S[i].vals THEN Hits(S[i], t) ELSE 0])
CountOf(S, Ts, v) == SumSeq([j \in 1..Len(Ts) |-> HitsOf(S, v, Ts[j])])
\* the same, broken down by x
CountBy(S, Ts, v, x) == SumSeq([j \in 1..Len(Ts) |-> HitsOf(S, v, Ts[j]) * Times(x, Ts[j].extra)])
ExtrasFor(S, Ts, v) == {x \in UNION {{Ts[j].extra[i] : i \in 1..Len(Ts[j].extra)} : j \in 1..Len(Ts)} : CountBy(S, Ts, v, x) > 0}

(* the graph: an edge from a value of a source to a value of a target that cites it *)
Weight(S, Ts, v, w) == SumSeq([j \in 1..Len(Ts) |-> IF w \in Ts[j].vals THEN HitsOf(S, v, Ts[j]) ELSE 0])
WeightBy(S, Ts, v, w, x) == SumSeq([j \in 1..Len(Ts) |-> IF w \in Ts[j].vals THEN HitsOf(S, v, Ts[j]) * Times(x, Ts[j].extra) ELSE 0])
===============================================================================
