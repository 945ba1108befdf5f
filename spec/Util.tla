-------------------------------- MODULE Util --------------------------------
(* Small operators shared by the design specifications and trace specs.      *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == { s[i] : i \in DOMAIN s }
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

\* An optional value is a sequence of length 0 or 1 (JSON has no good "none").
Some(x) == <<x>>
None == <<>>
IsNone(o) == o = <<>>
Get(o) == o[1]

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))

RECURSIVE FoldAnd(_)
FoldAnd(s) == IF s = <<>> THEN TRUE ELSE Head(s) /\ FoldAnd(Tail(s))

Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
SameBag(s, u) == /\ Len(s) = Len(u)
                 /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(u, s[i])

IsInjective(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
StrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

Map(Op(_), s) == [i \in DOMAIN s |-> Op(s[i])]
=============================================================================
