------------------------------ MODULE MCSpline ------------------------------
(* On all paths of two pieces with small integer coefficients that join as   *)
(* splines of their order do: the relations of Spline hold exactly, and do   *)
(* not when one of the derivatives is of another path.                       *)
EXTENDS Spline, TLC
CONSTANTS MaxC, MaxD
VARIABLES order, cs, d, jump
vars == <<order, cs, d, jump>>
Init == /\ order \in {1, 3, 5}
        /\ cs = <<>> /\ d \in [1..2 -> 1..MaxD] /\ jump \in (0 - MaxC)..MaxC
Next == /\ Len(cs) < order + 1
        /\ \E c \in (0 - MaxC)..MaxC : cs' = Append(cs, c)
        /\ UNCHANGED <<order, d, jump>>
Spec == Init /\ [][Next]_vars

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE Fact(_, _)
Fact(n, m) == IF m = 0 THEN 1 ELSE n * Fact(n - 1, m - 1)
\* m-th derivative of the path at s: the second piece begins at d[1], where the
\* highest derivative jumps.
Der(s, m) ==
    SumSeq([k \in 1..Len(cs) |-> IF k - 1 < m THEN 0 ELSE cs[k] * Fact(k - 1, m) * Pow(s, k - 1 - m)])
    + IF m <= order /\ (s > d[1] \/ (s = d[1] /\ m = order))
      THEN jump * Fact(order, m) * Pow(s - d[1], order - m) ELSE 0
At == <<0, d[1], d[1] + d[2]>>
P == <<Der(At[1], 0), Der(At[2], 0), Der(At[3], 0)>>
V == <<Der(At[1], 1), Der(At[2], 1), Der(At[3], 1)>>
A == <<Der(At[1], 2), Der(At[2], 2), Der(At[3], 2)>>
Whole == Len(cs) = order + 1
DD(i) == P[i + 1] - P[i]

Exact == Whole =>
    CASE order = 1 -> \A i \in 1..2 : LinearGap(d[i], DD(i), V[i]) = 0
      [] order = 3 -> \A i \in 1..2 :
           /\ CubicGap0(d[i], DD(i), V[i], V[i + 1], A[i]) = 0
           /\ CubicGap1(d[i], DD(i), V[i], V[i + 1], A[i + 1]) = 0
      [] order = 5 -> \A i \in 1..2 :
           /\ Jerk0(d[i], DD(i), V[i], V[i + 1], A[i], A[i + 1])
                = Der(At[i], 3) * Pow(d[i], 3)
           /\ Jerk1(d[i], DD(i), V[i], V[i + 1], A[i], A[i + 1])
                = Der(At[i + 1], 3) * Pow(d[i], 3)
Accepted == Whole => Fits(order, d, P, IF order = 1 THEN [V EXCEPT ![3] = V[2]] ELSE V, A)
Big(s) == [i \in DOMAIN s |-> 1000 * s[i]]
\* A wrong velocity or acceleration is seen.
Seen == Whole /\ order = 3 =>
    /\ ~Fits(order, d, Big(P), Big([V EXCEPT ![2] = @ + 1]), Big(A))
    /\ ~Fits(order, d, Big(P), Big(V), Big([A EXCEPT ![2] = @ + 1]))
SeenFive == Whole /\ order = 5 =>
    /\ ~Fits(order, d, Big(P), Big([V EXCEPT ![1] = @ + 1]), Big(A))
    /\ ~Fits(order, d, Big(P), Big(V), Big([A EXCEPT ![1] = @ + 1]))
\* One piece when there is no jump.
One == Whole /\ order = 3 =>
    (OnePiece(order, d, Big(V), Big(A)) <=> jump = 0)
=============================================================================
