------------------------------ MODULE MKCommon ------------------------------
(* Small vocabulary shared by the specifications. *)
EXTENDS Integers, Sequences, FiniteSets

SeqRange(s) == {s[i] : i \in 1..Len(s)}

\* number of positions of s that satisfy P
CountIf(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
Occ(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

NoDups(s) == Cardinality(SeqRange(s)) = Len(s)

RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0      \* f is a function on (at least) S
                ELSE LET x == CHOOSE x \in S : TRUE
                     IN  f[x] + SumSet(S \ {x}, f)

RECURSIVE SumRange(_, _, _)
SumRange(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN s[a]
                     ELSE LET m == (a + b) \div 2 IN SumRange(s, a, m) + SumRange(s, m + 1, b)
SumSeq(s) == SumRange(s, 1, Len(s))

\* first position of x in s, 0 when absent
IndexOf(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
                 ELSE 0

\* two sequences are equal as bags
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in SeqRange(s) \cup SeqRange(t) : Occ(s, x) = Occ(t, x)

FilterSeq(s, P(_)) == SelectSeq(s, P)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE FlattenRange(_, _, _)
FlattenRange(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                          ELSE LET m == (a + b) \div 2 IN FlattenRange(ss, a, m) \o FlattenRange(ss, m + 1, b)
FlattenSeqs(ss) == FlattenRange(ss, 1, Len(ss))

Abs(n) == IF n < 0 THEN 0 - n ELSE n
=============================================================================
