------------------------------- MODULE SeqOps -------------------------------
(* Plain-array operations on sequences; positions are 0-based as in the     *)
(* code.  This is the reference meaning of every EnumVec operation.         *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

At(s, i)        == s[i + 1]
Put(s, i, x)    == [s EXCEPT ![i + 1] = x]
Ins(s, i, x)    == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Del(s, i)       == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Swp(s, i, j)    == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
SwpDel(s, i)    == SubSeq(Swp(s, i, Len(s) - 1), 1, Len(s) - 1)
Trunc(s, n)     == IF n < Len(s) THEN SubSeq(s, 1, n) ELSE s
Rep(x, n)       == [k \in 1..n |-> x]
Resz(s, n, x)   == IF n > Len(s) THEN s \o Rep(x, n - Len(s)) ELSE SubSeq(s, 1, n)
Keep(s, K)      == SelectSeq(s, LAMBDA y : y \in K)
Tail0(s, i)     == SubSeq(s, i + 1, Len(s))        \* from position i on
Head0(s, i)     == SubSeq(s, 1, i)                 \* before position i
Elems(s)        == {s[k] : k \in 1..Len(s)}
AnyIs(s, x)     == \E k \in 1..Len(s) : s[k] = x
AllAre(s, x)    == \A k \in 1..Len(s) : s[k] = x
Max2(a, b)      == IF a >= b THEN a ELSE b
Min2(a, b)      == IF a <= b THEN a ELSE b
=============================================================================
