------------------------------ MODULE SnapOps -------------------------------
(* Taking frames out of trajectories.  A trajectory is [id, t0, pts]: its    *)
(* first frame number, and for each successive frame the values of all its   *)
(* properties, of which the first is position, and the second velocity.      *)
(* Trajectories are without holes; a list of them is a sequence.             *)
EXTENDS Util

First(tj) == tj.t0
Last(tj) == tj.t0 + Len(tj.pts) - 1
At(tj, t) == tj.pts[t - tj.t0 + 1]
Pos(tj, t) == At(tj, t)[1]

\* Indices of those whose time span contains the frame, and the next one.
Spans(ts, t, seg) == { i \in DOMAIN ts : First(ts[i]) <= t /\
                                        t + (IF seg THEN 1 ELSE 0) <= Last(ts[i]) }
Places(ts, S, t) == { Pos(ts[i], t) : i \in S }

\* A right answer to "which are active": one for each place taken.
IsActive(ts, t, seg, S) ==
    /\ S \subseteq Spans(ts, t, seg)
    /\ Places(ts, S, t) = Places(ts, Spans(ts, t, seg), t)
    /\ Cardinality(S) = Cardinality(Places(ts, S, t))

\* The snapshot of a list (all of which have the frame).
Snapshot(ts, t) == [i \in DOMAIN ts |-> [id |-> ts[i].id, v |-> At(ts[i], t)]]

\* Rows of a collected table: position, velocity, frame and ID.
TableRow(tj, t) == [x |-> At(tj, t)[1], v |-> At(tj, t)[2], t |-> t, id |-> tj.id]
=============================================================================
