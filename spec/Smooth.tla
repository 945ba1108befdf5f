------------------------------- MODULE Smooth -------------------------------
(* Local least-squares polynomials.  The polynomial of some order that fits  *)
(* best 2h+1 values y[-h], ..., y[h] is a sum over the orthogonal            *)
(* polynomials on these points (Gram polynomials), which have integer        *)
(* values, so that its coefficients are exact fractions.                     *)
(* Coef(y, h, order, m) is that of the m-th power, times Unit.               *)
EXTENDS Util

Unit == 1000

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE GcdOf(_, _)
GcdOf(f, S) == IF S = {} THEN 0
               ELSE LET x == CHOOSE x \in S : TRUE IN Gcd(GcdOf(f, S \ {x}), f[x])
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE SumUp(_, _, _)
SumUp(f, a, b) == IF a > b THEN 0 ELSE f[a] + SumUp(f, a + 1, b)

\* Coefficients of powers 0..5 of the orthogonal polynomial of degree k.
Gram(k, h) ==
    CASE k = 0 -> <<1, 0, 0, 0, 0, 0>>
      [] k = 1 -> <<0, 1, 0, 0, 0, 0>>
      [] k = 2 -> <<0 - h * (h + 1), 0, 3, 0, 0, 0>>
      [] k = 3 -> <<0, 0 - (3 * h * h + 3 * h - 1), 0, 5, 0, 0>>
      [] k = 4 -> <<3 * h * (h * h - 1) * (h + 2), 0, 0 - 5 * (6 * h * h + 6 * h - 5), 0, 35, 0>>
      [] k = 5 -> <<0, 15 * Pow(h, 4) + 30 * Pow(h, 3) - 35 * h * h - 50 * h + 12, 0,
                    0 - 35 * (2 * h * h + 2 * h - 3), 0, 63>>
Window(h) == (0 - h)..h
Values(k, h) == [j \in Window(h) |->
    LET g == Gram(k, h)
    IN g[1] + j * (g[2] + j * (g[3] + j * (g[4] + j * (g[5] + j * g[6]))))]
Factor(k, h) == GcdOf(Values(k, h), Window(h))
Small(k, h) == LET g == Factor(k, h) v == Values(k, h) IN [j \in Window(h) |-> v[j] \div g]
Norm(k, h) == LET q == Small(k, h) IN SumUp([j \in Window(h) |-> q[j] * q[j]], 0 - h, h)

\* Unit * x * n / d (d > 0), to within one.
Part(x, n, d) ==
    LET g == Gcd(n, d)
        a == n \div g
        b == d \div g
        p == x * a
    IN (p \div b) * Unit + ((p % b) * Unit) \div b

\* All that does not depend on the data: q, and for each power the fraction.
Table(h, order) == [k \in 0..order |->
    [q |-> Small(k, h), gram |-> Gram(k, h), den |-> Factor(k, h) * Norm(k, h)]]
\* All of them, for TLC to calculate once.
Tables == [h \in 0..5 |-> [order \in 0..5 |-> IF order <= 2 * h THEN Table(h, order) ELSE <<>>]]
RECURSIVE CoefTo(_, _, _, _, _)
CoefTo(y, h, T, m, k) ==
    IF k < 0 THEN 0
    ELSE CoefTo(y, h, T, m, k - 1) +
         (IF T[k].gram[m + 1] = 0 THEN 0
          ELSE Part(SumUp([j \in Window(h) |-> y[j] * T[k].q[j]], 0 - h, h),
                    T[k].gram[m + 1], T[k].den))
Coef(y, h, T, order, m) == IF m > order THEN 0 ELSE CoefTo(y, h, T, m, order)

\* The point i of a series and those around it.
Around(ys, i, h) == [j \in Window(h) |-> ys[i + j]]
\* Beyond its ends a series goes on: down before the first point, up after the
\* last one, by as much as the mirrored point differs from that end.
Continued(ys, h) ==
    LET n == Len(ys)
    IN [i \in (1 - h)..(n + h) |->
         IF i < 1 THEN ys[1] - Abs(ys[2 - i] - ys[1])
         ELSE IF i > n THEN ys[n] + Abs(ys[2 * n - i] - ys[n])
         ELSE ys[i]]

Valid(window, order) == window % 2 = 1 /\ window >= order + 2
=============================================================================
