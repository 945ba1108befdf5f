------------------------------- MODULE Spline -------------------------------
(* Smoothing a path by a spline of odd order (1, 3, 5), whose pieces join at *)
(* points of the path.  The path is given by integer positions such that the *)
(* length of every step is an integer; velocity and acceleration are by the  *)
(* length along the path.  A piece is then a polynomial between two points,  *)
(* and what is known at its ends must fit together:                          *)
(*   d  length of the step, D difference of positions over it,               *)
(*   v0, v1, a0, a1 velocities and accelerations at its ends.                *)
EXTENDS Util

LinearGap(d, D, v0) == v0 * d - D
CubicGap0(d, D, v0, v1, a0) == a0 * d * d - (6 * D - d * (4 * v0 + 2 * v1))
CubicGap1(d, D, v0, v1, a1) == a1 * d * d - (d * (2 * v0 + 4 * v1) - 6 * D)
\* third derivatives at the ends of a piece, times d^3.
Jerk0(d, D, v0, v1, a0, a1) == 60 * D - d * (36 * v0 + 24 * v1) - d * d * (9 * a0 - 3 * a1)
Jerk1(d, D, v0, v1, a0, a1) == 60 * D - d * (24 * v0 + 36 * v1) + d * d * (9 * a1 - 3 * a0)

\* Numbers rounded to integers may be off by a half.
CubicSlack(d) == d * d + 6 * d + 12
JerkSlack(d) == (60 + 30 * d + 6 * d * d) \div (d * d * d) + 2

\* One component of a smoothed path: positions, velocities, accelerations p, v, a
\* at the points, d the lengths of the steps; all rounded.
Fits(order, d, p, v, a) ==
    LET n == Len(p)
        D(i) == p[i + 1] - p[i]
    IN CASE order = 1 ->
              /\ \A i \in 1..(n - 1) : Abs(LinearGap(d[i], D(i), v[i])) <= d[i] + 2
              /\ v[n] = v[n - 1]
              /\ \A i \in 1..n : a[i] = 0
         [] order = 3 -> \A i \in 1..(n - 1) :
              /\ Abs(CubicGap0(d[i], D(i), v[i], v[i + 1], a[i])) <= CubicSlack(d[i])
              /\ Abs(CubicGap1(d[i], D(i), v[i], v[i + 1], a[i + 1])) <= CubicSlack(d[i])
         [] order = 5 -> \A i \in 1..(n - 2) :
              LET j == i + 1
              IN Abs(Jerk1(d[i], D(i), v[i], v[j], a[i], a[j]) \div (d[i] * d[i] * d[i])
                     - Jerk0(d[j], D(j), v[j], v[j + 1], a[j], a[j + 1]) \div (d[j] * d[j] * d[j]))
                    <= JerkSlack(d[i]) + JerkSlack(d[j])
\* Could it all be one polynomial?
OnePiece(order, d, v, a) ==
    LET n == Len(v)
    IN CASE order = 1 -> \A i \in 1..n : Abs(v[i] - v[1]) <= 2
         [] order = 3 -> \A i \in 2..(n - 1) :
              Abs((a[i + 1] - a[i]) * d[1] - (a[2] - a[1]) * d[i]) <= 2 * (d[1] + d[i])
         [] order = 5 -> TRUE

(* Strength: the squared deviations sum up to (points * bound) squared, or   *)
(* less if no smoother path deviates more.  Everything in hundredths; r are  *)
(* the rounded deviations.                                                   *)
Sum(s) == SumSeq(s)
RECURSIVE SumSqTo(_, _)
SumSqTo(r, n) == IF n = 0 THEN 0 ELSE Min2(1000000000, SumSqTo(r, n - 1) + r[n] * r[n])
SumSq(r) == SumSqTo(r, Len(r))
Slack(r) == Sum([i \in DOMAIN r |-> Abs(r[i])]) + Len(r)
Within(r, n, bound) ==
    LET s == n * n * bound * bound IN SumSq(r) - Slack(r) <= s + s \div 500
AsFar(r, n, bound) ==
    LET s == n * n * bound * bound IN SumSq(r) + Slack(r) >= s - s \div 500

Smoothable(n, order) == n > order
=============================================================================
