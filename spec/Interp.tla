------------------------------- MODULE Interp -------------------------------
(* Interpolation of data from tracers to points.  Positions are on a grid    *)
(* (integer vectors), so that squared distances are exact integers; data are *)
(* integer vectors.                                                          *)
(*   par   [method |-> "inv" | "corrfun" | "rbf", k |-> neighbours wanted,   *)
(*          r |-> [] or [twice the squared radius, odd], p |-> twice the     *)
(*          inverse power, bins |-> twice the squared start of each bin,     *)
(*          hist |-> weights of each bin (for each component, or the same    *)
(*          one for all),                                                    *)
(*          kernel |-> kernel by squared distance, from 0, times KU]         *)
(*   scene [tr |-> tracer positions, pts |-> points, comp |-> [] or          *)
(*          [companion of each point, 0 for none], data |-> of each tracer]  *)
EXTENDS Util

RECURSIVE SumFn(_, _)
SumFn(f, S) == IF S = {} THEN 0
               ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumFn(f, S \ {x})
Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])

(* ------------------------------------------------------------- neighbours *)
Comp(sc, i) == IF sc.comp = <<>> THEN 0 ELSE sc.comp[1][i]
InRadius(d2, r) == r = <<>> \/ 2 * d2 < r[1]
\* Tracers that may be neighbours of point i.
Cands(sc, i, r) == { j \in DOMAIN sc.tr :
    LET d == D2(sc.tr[j], sc.pts[i])
    IN d > 0 /\ j # Comp(sc, i) /\ InRadius(d, r) }
\* S may be the neighbours: of equally far tracers any may be.
Nearest(sc, i, k, C, S) ==
    /\ S \subseteq C
    /\ Cardinality(S) = Min2(k, Cardinality(C))
    /\ \A s \in S, c \in C \ S : D2(sc.tr[s], sc.pts[i]) <= D2(sc.tr[c], sc.pts[i])
Neighbours(sc, par, i, S) == Nearest(sc, i, par.k, Cands(sc, i, par.r), S)
\* One-off selections take all of the tracers within a radius.
Selected(sc, par, i, S) ==
    IF par.r = <<>> THEN Neighbours(sc, par, i, S) ELSE S = Cands(sc, i, par.r)
\* All possible choices: nearer ones are sure, and some of those that are as
\* far as the farthest.
Choices(sc, k, i, C) ==
    IF Cardinality(C) <= k THEN {C}
    ELSE LET d == [j \in C |-> D2(sc.tr[j], sc.pts[i])]
             far == CHOOSE x \in { d[j] : j \in C } :
                 /\ Cardinality({ j \in C : d[j] < x }) < k
                 /\ Cardinality({ j \in C : d[j] <= x }) >= k
             sure == { j \in C : d[j] < far }
             ties == { j \in C : d[j] = far }
         IN { sure \cup T : T \in { T \in SUBSET ties : Cardinality(T) = k - Cardinality(sure) } }
ScenePick(sc, par, i) == Choices(sc, par.k, i, Cands(sc, i, par.r))
OncePick(sc, par, i) == IF par.r = <<>> THEN ScenePick(sc, par, i)
                        ELSE { Cands(sc, i, par.r) }

(* ------------------------------------------------------------ mean values *)
Milli(num, den) == (num \div den) * 1000 + ((num % den) * 1000) \div den

Full == 30000
RECURSIVE Root(_, _)
Root(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Root(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE Root(n, 40000)
\* (least distance / distance) to the power p/2, of Full.
Inverse(d, least, p) ==
    LET w1 == ISqrt(((Full * Full) \div d) * least)
        w2 == (Full * least) \div d
        whole == CASE p \div 2 = 0 -> Full
                   [] p \div 2 = 1 -> w1
                   [] p \div 2 = 2 -> w2
                   [] p \div 2 = 3 -> (w1 * w2) \div Full
                   [] p \div 2 = 4 -> (w2 * w2) \div Full
    IN IF p % 2 = 0 THEN whole ELSE (whole * ISqrt(w1 * Full)) \div Full
Bin(d, bins) == SetMax({ b \in DOMAIN bins : 2 * d >= bins[b] })
\* Weight of each neighbour for component c.
Weights(sc, par, i, S, c) ==
    LET d == [j \in S |-> D2(sc.tr[j], sc.pts[i])]
        least == SetMin({ d[j] : j \in S })
    IN IF par.method = "inv" THEN [j \in S |-> Inverse(d[j], least, par.p)]
       ELSE [j \in S |-> LET h == par.hist[Bin(d[j], par.bins)]
                         IN IF Len(h) = 1 THEN h[1] ELSE h[c]]
Mean(sc, par, i, S, c) ==
    LET w == Weights(sc, par, i, S, c)
    IN Milli(SumFn([j \in S |-> w[j] * sc.data[j][c]], S), SumFn(w, S))

(* ----------------------------------------------------- radial basis values *)
KU == 4000
K(par, a, b) == par.kernel[D2(a, b) + 1]
RECURSIVE SumSeqTo(_, _)
SumSeqTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumSeqTo(f, n - 1)
\* Solves a system of n equations, whose matrix is symmetric and positive, given as
\* rows of n + 1 numbers; all are times KU.
RECURSIVE Solve(_)
Solve(rows) ==
    LET n == Len(rows)
        top == rows[1]
    IN IF n = 1 THEN << (top[2] * KU) \div top[1] >>
       ELSE LET rest == [i \in 1..(n - 1) |->
                    LET r == rows[i + 1]
                        f == (r[1] * KU) \div top[1]
                    IN [k \in 1..n |-> r[k + 1] - (f * top[k + 1]) \div KU]]
                cs == Solve(rest)
                x == top[n + 1] - SumSeqTo([k \in 1..(n - 1) |-> (top[k + 1] * cs[k]) \div KU], n - 1)
            IN << (x * KU) \div top[1] >> \o cs
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<x>> \o SeqOf(S \ {x})
Radial(sc, par, i, S, c) ==
    LET s == SeqOf(S)
        n == Len(s)
        cs == Solve([a \in 1..n |-> [b \in 1..(n + 1) |->
                 IF b = n + 1 THEN sc.data[s[a]][c] * KU
                 ELSE K(par, sc.tr[s[a]], sc.tr[s[b]])]])
        v == SumSeqTo([a \in 1..n |-> (cs[a] * K(par, sc.tr[s[a]], sc.pts[i])) \div KU], n)
    IN (v * 1000) \div KU

\* The value of component c at point i when its neighbours are S, in thousandths.
Value(sc, par, i, S, c) ==
    IF par.method = "rbf" THEN Radial(sc, par, i, S, c) ELSE Mean(sc, par, i, S, c)
Slack(par) == IF par.method = "inv" THEN 30 ELSE IF par.method = "rbf" THEN 60 ELSE 2
NoData == 0 - 999999999

(* ------------------------------------------------------------ derivatives *)
\* Of component c in direction x, of inverse-distance interpolation with the
\* neighbours held, in hundredths.
Slope(sc, par, i, S, c, x) ==
    LET w == Weights(sc, par, i, S, c)
        v == Mean(sc, par, i, S, c) \div 10
        term == [j \in S |->
            (w[j] * (sc.tr[j][x] - sc.pts[i][x]) * (100 * sc.data[j][c] - v))
                \div D2(sc.tr[j], sc.pts[i])]
    IN IF par.p = 0 THEN 0 ELSE SumFn(term, S) \div ((2 * SumFn(w, S)) \div par.p)
SlopeSlack == 30

(* ------------------------------------------------------------------ state *)
VARIABLE scene
ivars == <<scene>>
Keep(s, which) == LET RECURSIVE go(_)
                      go(n) == IF n = 0 THEN <<>>
                               ELSE go(n - 1) \o (IF which[n] THEN <<>> ELSE <<s[n]>>)
                  IN go(Len(s))
SetField(tr) == scene' = [scene EXCEPT !.tr = tr]
SetPoints(pts, comp) == scene' = [scene EXCEPT !.pts = pts, !.comp = comp]
SetData(data) == scene' = [scene EXCEPT !.data = data]
SetScene(tr, pts, comp, data) ==
    scene' = [tr |-> tr, pts |-> pts, comp |-> comp,
              data |-> IF data = <<>> THEN scene.data ELSE data[1]]
Trim(which) == scene' = [scene EXCEPT
    !.pts = Keep(@, which),
    !.comp = IF @ = <<>> THEN @ ELSE << Keep(@[1], which) >>]
=============================================================================
