-------------------------------- MODULE Snap --------------------------------
(* Lists of trajectories that grow frame by frame, and what is taken from    *)
(* them.                                                                     *)
EXTENDS SnapOps

VARIABLE trajs     \* the list of trajectories
svars == <<trajs>>

(* --------------------------------------------------------------- dynamics *)
\* A list of trajectories comes to be by particles appearing and continuing.
Appear(id, t, v) == trajs' = Append(trajs, [id |-> id, t0 |-> t, pts |-> <<v>>])
Continue(i, v) == trajs' = [trajs EXCEPT ![i].pts = Append(@, v)]
Given(ts) == trajs' = ts

(* ------------------------------------------------------------- properties *)
\* There is a right answer, those without company are in each one, and those
\* active for a segment are the ones that both frames have.
SomeAnswer == \A t \in 0..5 : \A seg \in BOOLEAN :
    \E S \in SUBSET (DOMAIN trajs) : IsActive(trajs, t, seg, S)
LonelyIn == \A t \in 0..5 : \A S \in SUBSET (DOMAIN trajs) :
    IsActive(trajs, t, FALSE, S) =>
       \A i \in Spans(trajs, t, FALSE) :
          (\A j \in Spans(trajs, t, FALSE) \ {i} : Pos(trajs[i], t) # Pos(trajs[j], t)) => i \in S
SegIsBoth == \A t \in 0..5 :
    Spans(trajs, t, TRUE) = Spans(trajs, t, FALSE) \cap Spans(trajs, t + 1, FALSE)
SnapFaithful == \A t \in 0..5 :
    LET is == CHOOSE s \in [1..Cardinality(Spans(trajs, t, FALSE)) -> Spans(trajs, t, FALSE)] :
                 Range(s) = Spans(trajs, t, FALSE)
        sn == Snapshot([k \in DOMAIN is |-> trajs[is[k]]], t)
    IN \A k \in DOMAIN sn : /\ sn[k].id = trajs[is[k]].id
                            /\ sn[k].v = trajs[is[k]].pts[1 + t - trajs[is[k]].t0]
=============================================================================
