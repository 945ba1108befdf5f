------------------------------ MODULE MCSmooth ------------------------------
(* On all series of 2h+1 values in 0..MaxY: the fit is the best one, no      *)
(* small change of a coefficient makes it better, and polynomials are fitted *)
(* exactly.                                                                  *)
EXTENDS Smooth, TLC
CONSTANTS MaxH, MaxY, MaxC
VARIABLES h, order, y, cs
vars == <<h, order, y, cs>>
Poly(c, j) == c[1] + j * (c[2] + j * (c[3] + j * c[4]))
Init == /\ h \in 1..MaxH /\ order \in 0..3 /\ Valid(2 * h + 1, order)
        /\ y = <<>> /\ cs = <<>>
Next == \/ /\ Len(y) < 2 * h + 1 /\ cs = <<>>
           /\ \E v \in 0..MaxY : y' = Append(y, v)
           /\ UNCHANGED <<h, order, cs>>
        \/ /\ y = <<>> /\ Len(cs) < order + 1
           /\ \E c \in (0 - MaxC)..MaxC : cs' = Append(cs, c)
           /\ UNCHANGED <<h, order, y>>
Spec == Init /\ [][Next]_vars

ASSUME
    \A H \in 1..5 : \A b \in 0..Min2(5, 2 * H) : \A a \in 0..(b - 1) :
        SumUp([j \in Window(H) |-> Tables[H][b][a].q[j] * Tables[H][b][b].q[j]], 0 - H, H) = 0

T == Tables[h][order]
Y == [j \in Window(h) |-> y[j + h + 1]]
C(yy) == <<Coef(yy, h, T, order, 0), Coef(yy, h, T, order, 1),
           Coef(yy, h, T, order, 2), Coef(yy, h, T, order, 3)>>
\* normal equations: the error is orthogonal to each power.
Best == Len(y) = 2 * h + 1 =>
    LET c == C(Y)
        e == [j \in Window(h) |-> Y[j] * Unit - Poly(c, j)]
    IN \A m \in 0..order :
         Abs(SumUp([j \in Window(h) |-> e[j] * Pow(j, m)], 0 - h, h))
            <= 3 * SumUp([j \in Window(h) |-> Pow(h, order) * Abs(Pow(j, m))], 0 - h, h) * (order + 1)
Exact == Len(cs) = order + 1 =>
    LET full == [m \in 1..4 |-> IF m <= order + 1 THEN cs[m] ELSE 0]
        c == C([j \in Window(h) |-> Poly(full, j)])
    IN \A m \in 1..4 : Abs(c[m] - Unit * full[m]) <= order + 1
=============================================================================
