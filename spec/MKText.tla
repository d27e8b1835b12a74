------------------------------- MODULE MKText -------------------------------
(* Text (ASCII strings) as TLC strings: TLC's Sequences operators Len, \o and *)
(* SubSeq work on strings, everything else is defined here.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i)   == SubSeq(s, i, i)
Chars(s)   == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
Upto(s, i) == IF i < 1 THEN "" ELSE IF i >= Len(s) THEN s ELSE SubSeq(s, 1, i)

StartsAt(s, p, i)  == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
StartsWith(s, p)   == Len(p) = 0 \/ StartsAt(s, p, 1)
EndsWith(s, p)     == Len(p) = 0 \/ (Len(p) <= Len(s) /\ StartsAt(s, p, Len(s) - Len(p) + 1))
Contains(s, p)     == Len(p) = 0 \/ \E i \in 1..(Len(s) - Len(p) + 1) : StartsAt(s, p, i)

\* first position >= i at which p starts in s, 0 when there is none
FindFrom(s, p, i) == LET I == i..(Len(s) - Len(p) + 1)
                     IN IF \E j \in I : StartsAt(s, p, j) THEN CHOOSE j \in I : StartsAt(s, p, j) /\ \A k \in i..(j - 1) : ~StartsAt(s, p, k)
                        ELSE 0
Find(s, p) == FindFrom(s, p, 1)
LastFind(s, p) == LET I == {i \in 1..(Len(s) - Len(p) + 1) : StartsAt(s, p, i)}
                  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

\* concatenation of a sequence of strings (divide and conquer keeps the stack flat)
RECURSIVE ConcatRange(_, _, _)
ConcatRange(ss, a, b) == IF a > b THEN "" ELSE IF a = b THEN ss[a]
                         ELSE LET m == (a + b) \div 2
                              IN ConcatRange(ss, a, m) \o ConcatRange(ss, m + 1, b)
Concat(ss) == ConcatRange(ss, 1, Len(ss))
RECURSIVE JoinRange(_, _, _, _)
JoinRange(ss, sep, a, b) == IF a > b THEN "" ELSE IF a = b THEN ss[a]
                            ELSE LET m == (a + b) \div 2
                                 IN JoinRange(ss, sep, a, m) \o sep \o JoinRange(ss, sep, m + 1, b)
Join(ss, sep) == JoinRange(ss, sep, 1, Len(ss))

\* s.split(sep): always at least one piece
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, sep, i) == LET k == FindFrom(s, sep, i)
                        IN IF k = 0 THEN <<From(s, i)>>
                           ELSE <<(IF k = i THEN "" ELSE SubSeq(s, i, k - 1))>> \o SplitFrom(s, sep, k + Len(sep))
Split(s, sep) == SplitFrom(s, sep, 1)
Replace(s, old, new) == Join(Split(s, old), new)

LowerChars == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
UpperChars == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
DigitChars == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
LowerSet == {LowerChars[i] : i \in 1..26}
UpperSet == {UpperChars[i] : i \in 1..26}
LetterSet == LowerSet \cup UpperSet
DigitSet == {DigitChars[i] : i \in 1..10}
SpaceSet == {" ", "\t", "\n", "\r", "\f"}
ToUpTab  == [c \in LowerSet |-> UpperChars[CHOOSE i \in 1..26 : LowerChars[i] = c]]
ToLowTab == [c \in UpperSet |-> LowerChars[CHOOSE i \in 1..26 : UpperChars[i] = c]]
DigitVal == [c \in DigitSet |-> (CHOOSE i \in 1..10 : DigitChars[i] = c) - 1]
UpCh(c)  == IF c \in LowerSet THEN ToUpTab[c] ELSE c
LowCh(c) == IF c \in UpperSet THEN ToLowTab[c] ELSE c
MapChars(s, f(_)) == Concat([i \in 1..Len(s) |-> f(SubSeq(s, i, i))])
Upper(s) == MapChars(s, UpCh)
Lower(s) == MapChars(s, LowCh)
\* str.title(): a letter is upper case exactly when the character before it is no letter
Title(s) == Concat([i \in 1..Len(s) |-> IF i > 1 /\ Ch(s, i - 1) \in LetterSet THEN LowCh(Ch(s, i)) ELSE UpCh(Ch(s, i))])

IsDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Ch(s, i) \in DigitSet
RECURSIVE NatOf(_)
NatOf(s) == IF Len(s) = 0 THEN 0 ELSE 10 * NatOf(Upto(s, Len(s) - 1)) + DigitVal[Ch(s, Len(s))]
IntOf(s) == IF StartsWith(s, "-") THEN 0 - NatOf(From(s, 2)) ELSE NatOf(s)

LStrip(s) == IF \E i \in 1..Len(s) : Ch(s, i) \notin SpaceSet
             THEN From(s, CHOOSE i \in 1..Len(s) : Ch(s, i) \notin SpaceSet /\ \A k \in 1..(i - 1) : Ch(s, k) \in SpaceSet)
             ELSE ""
RECURSIVE RStrip(_)
RStrip(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in SpaceSet THEN RStrip(Upto(s, Len(s) - 1)) ELSE s
Strip(s) == LStrip(RStrip(s))

\* length of the longest run from position i of characters inside / outside S
\* (no recursion: TLC's evaluation of a deep recursion takes quadratic time)
RunIn(s, i, S)  == IF \E j \in i..Len(s) : Ch(s, j) \notin S
                   THEN (CHOOSE j \in i..Len(s) : Ch(s, j) \notin S /\ \A k \in i..(j - 1) : Ch(s, k) \in S) - i
                   ELSE IF i > Len(s) THEN 0 ELSE Len(s) - i + 1
RunOut(s, i, S) == IF \E j \in i..Len(s) : Ch(s, j) \in S
                   THEN (CHOOSE j \in i..Len(s) : Ch(s, j) \in S /\ \A k \in i..(j - 1) : Ch(s, k) \notin S) - i
                   ELSE IF i > Len(s) THEN 0 ELSE Len(s) - i + 1
=============================================================================
