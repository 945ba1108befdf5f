------------------------------- MODULE MCSnap -------------------------------
EXTENDS Snap
CONSTANTS MaxT, MaxN

Vals == { << <<x>>, <<y>> >> : x \in 1..2, y \in 1..2 }
Init == trajs = <<>>
Next == \/ /\ Len(trajs) < MaxN
           /\ \E t \in 1..MaxT, v \in Vals : Appear(Len(trajs) + 1, t, v)
        \/ \E i \in DOMAIN trajs, v \in Vals : Last(trajs[i]) < MaxT /\ Continue(i, v)
Spec == Init /\ [][Next]_svars
=============================================================================
