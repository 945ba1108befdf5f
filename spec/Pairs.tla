-------------------------------- MODULE Pairs -------------------------------
(* Pairing points of primary trajectories with the closest point of the      *)
(* secondary ones in the same frame.  Here a secondary trajectory is         *)
(* [id, t0, xs], with positions on a grid of integers.                       *)
EXTENDS Util

D2(a, b) == (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2]) + (a[3]-b[3])*(a[3]-b[3])

\* Secondary trajectories in a frame that go on to the next.
GoOn(sec, t) == { i \in DOMAIN sec : sec[i].t0 <= t /\ t + 1 <= sec[i].t0 + Len(sec[i].xs) - 1 }
Xat(tj, t) == tj.xs[t - tj.t0 + 1]
Closest(sec, t, x) ==
    { i \in GoOn(sec, t) : \A j \in GoOn(sec, t) :
        D2(Xat(sec[i], t), x) <= D2(Xat(sec[j], t), x) }

\* a is an answer [id, ix] to the request of the point x in frame t.
PairOk(sec, t, x, a) ==
    IF GoOn(sec, t) = {} THEN a.ix = -1
    ELSE \E i \in Closest(sec, t, x) : a.id = sec[i].id /\ a.ix = t - sec[i].t0

(* ------------------------------------------------------------- properties *)
\* An answer always is in the frame asked for, and no candidate is closer.
PairSound(sec, t, x) ==
    \A i \in DOMAIN sec : \A k \in 0..(Len(sec[i].xs)) :
       (GoOn(sec, t) # {} /\ PairOk(sec, t, x, [id |-> sec[i].id, ix |-> k])) =>
          /\ sec[i].t0 + k = t /\ k < Len(sec[i].xs) - 1
          /\ \A j \in GoOn(sec, t) : D2(Xat(sec[i], t), x) <= D2(Xat(sec[j], t), x)
PairExists(sec, t, x) ==
    \E a \in [id : {0} \cup { sec[i].id : i \in DOMAIN sec }, ix : -1..5] :
        PairOk(sec, t, x, a)

\* Observed pairs, each with its request: [t, x, id, ix].
PairClauses(sec, pairs) ==
    { IF GoOn(sec, p.t) = {} THEN "pair-none"
      ELSE IF ~\E i \in GoOn(sec, p.t) : sec[i].id = p.id THEN "pair-id"
      ELSE IF ~\E i \in GoOn(sec, p.t) : sec[i].id = p.id /\ p.ix = p.t - sec[i].t0
      THEN "pair-time" ELSE "pair-closest"
      : p \in { q \in Range(pairs) : ~PairOk(sec, q.t, q.x, q) } }
=============================================================================
