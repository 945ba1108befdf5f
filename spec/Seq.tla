--------------------------------- MODULE Seq --------------------------------
(* A sequence: two databases of trajectories (particles and tracers), seen   *)
(* over a range of frames, each through a selector.  Iterations over the     *)
(* range or a part of it, several at a time, give frame after frame the      *)
(* trajectories that continue from it to the next.  Mapping a function is    *)
(* such an iteration that also collects, for each particle trajectory, what  *)
(* the function returned for it.                                             *)
(*                                                                           *)
(* The range is <<first, after>>; of what is in the databases, the frames    *)
(* first..after count, as the last frame of the range needs its next one.    *)
EXTENDS SnapOps

VARIABLES parts, trcs,    \* the databases: sets of trajectories
          rng, minlen,
          psel, tsel,     \* IDs that the selectors let pass
          its             \* open iterations: [h -> [next, stop, map, acc]]

qvars == <<parts, trcs, rng, minlen, psel, tsel, its>>

\* What is left of a trajectory in the range.
Cut(tj) ==
    LET a == Max2(First(tj), rng[1])
        b == Min2(Last(tj), rng[2])
    IN [id |-> tj.id, t0 |-> a, pts |-> [k \in 1..Max2(0, b - a + 1) |-> At(tj, a + k - 1)]]
Visible(S) == { c \in { Cut(tj) : tj \in S } : Len(c.pts) >= Max2(1, minlen) }
Parts == { c \in Visible(parts) : c.id \in psel }
Trcs == { c \in Visible(trcs) : c.id \in tsel }

Going(S, t) == { c \in S : First(c) <= t /\ t + 1 <= Last(c) }
Show(S, t) == { [id |-> c.id, v |-> At(c, t)] : c \in S }
Item(t) == [t |-> t, p |-> Show(Going(Parts, t), t), pn |-> Show(Going(Parts, t), t + 1),
            q |-> Show(Going(Trcs, t), t), qn |-> Show(Going(Trcs, t), t + 1)]

\* The range covered by the selected particles, bounded by that of the sequence.
Covered == << Max2(SetMin({ First(c) : c \in Parts }), rng[1]),
              Min2(SetMax({ Last(c) : c \in Parts }), rng[2]) >>

\* Frames of a trajectory in a range of frames, that go on to the next.
FramesOf(c, lo, hi) == { t \in lo..(hi - 1) : First(c) <= t /\ t + 1 <= Last(c) }
Mapped(lo, hi) == { c \in Parts : FramesOf(c, lo, hi) # {} }

Make(p, q, r, m) ==
    /\ parts' = p /\ trcs' = q /\ rng' = r /\ minlen' = m
    /\ psel' = { tj.id : tj \in p } /\ tsel' = { tj.id : tj \in q }
    /\ its' = <<>>

Idle == its = <<>>
Select(which, ids) ==
    /\ Idle
    /\ IF which = "p" THEN psel' = ids /\ UNCHANGED tsel
                      ELSE tsel' = ids /\ UNCHANGED psel
    /\ UNCHANGED <<parts, trcs, rng, minlen, its>>

Fixed == UNCHANGED <<parts, trcs, rng, minlen, psel, tsel>>
Open(h, it) == its' = [k \in DOMAIN its \cup {h} |-> IF k = h THEN it ELSE its[k]]
Close(h) == its' = [k \in DOMAIN its \ {h} |-> its[k]]

Start(h, lo, hi) ==
    /\ h \notin DOMAIN its /\ Fixed
    /\ Open(h, [next |-> lo, stop |-> hi, map |-> FALSE, acc |-> <<>>, from |-> lo])
StartMap(h, lo, hi) ==
    /\ h \notin DOMAIN its /\ Fixed
    /\ Open(h, [next |-> lo, stop |-> hi, map |-> TRUE, from |-> lo,
                acc |-> [i \in { c.id : c \in Mapped(lo, hi) } |-> <<>>]])

AtEnd(h) == its[h].next >= its[h].stop
Step(h) == /\ ~AtEnd(h) /\ Fixed
           /\ Open(h, [its[h] EXCEPT !.next = @ + 1])
\* A step of a mapping; res is what the function returned, by ID.
Call(h, res) ==
    /\ its[h].map /\ ~AtEnd(h) /\ Fixed
    /\ Open(h, [its[h] EXCEPT !.next = @ + 1,
                !.acc = [i \in DOMAIN @ |-> IF i \in DOMAIN res THEN Append(@[i], res[i])
                                            ELSE @[i]]])
\* By itself or abandoned, leaving nothing behind.
Finish(h) == h \in DOMAIN its /\ Close(h) /\ Fixed
\* One that came to its end stays there.
Again(h) == h \notin DOMAIN its /\ UNCHANGED its /\ Fixed

(* ------------------------------------------------------------- properties *)
\* Every trajectory in an item has the frame and the next; all such are there.
ItemsRight ==
    \A t \in 0..6 : LET i == Item(t) IN
        /\ { r.id : r \in i.p } = { r.id : r \in i.pn }
        /\ { r.id : r \in i.q } = { r.id : r \in i.qn }
        /\ \A c \in Parts : (\E r \in i.p : r.id = c.id) <=> (t \in First(c)..(Last(c) - 1))
        /\ \A r \in i.p : \E c \in parts : c.id = r.id /\ First(c) <= t /\ t < Last(c)
                              /\ r.v = At(c, t) /\ r.id \in psel
\* The results so far of a mapping are one for each earlier continuing frame.
MapRight ==
    \A h \in DOMAIN its : its[h].map =>
        \A i \in DOMAIN its[h].acc :
            \E c \in Parts : c.id = i /\
                Len(its[h].acc[i]) = Cardinality(FramesOf(c, its[h].from, its[h].next))
\* None has an empty series when the mapping is over, and none is missing that
\* was ever in an item of it.
MapWhole ==
    \A h \in DOMAIN its : (its[h].map /\ AtEnd(h)) =>
        /\ \A i \in DOMAIN its[h].acc : its[h].acc[i] # <<>>
        /\ \A t \in its[h].from..(its[h].stop - 1) : \A r \in Item(t).p : r.id \in DOMAIN its[h].acc
CoveredRight == Parts # {} => /\ Covered[1] >= rng[1] /\ Covered[2] <= rng[2]
                              /\ \E c \in Parts : First(c) = Covered[1]
                              /\ \E c \in Parts : Last(c) = Covered[2]
=============================================================================
