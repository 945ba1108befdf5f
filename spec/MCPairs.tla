------------------------------ MODULE MCPairs -------------------------------
EXTENDS Pairs
CONSTANTS MaxT, MaxX, MaxN
VARIABLE sec
Grid == { <<x, 0, 0>> : x \in 0..MaxX }
Init == sec = <<>>
Next == \/ /\ Len(sec) < MaxN
           /\ \E t \in 0..MaxT, x \in Grid :
                sec' = Append(sec, [id |-> Len(sec) + 1, t0 |-> t, xs |-> <<x>>])
        \/ \E i \in DOMAIN sec, x \in Grid :
             /\ sec[i].t0 + Len(sec[i].xs) - 1 < MaxT
             /\ sec' = [sec EXCEPT ![i].xs = Append(@, x)]
Spec == Init /\ [][Next]_sec
Sound == \A t \in 0..MaxT, x \in Grid : PairSound(sec, t, x)
Exists == \A t \in 0..MaxT, x \in Grid : PairExists(sec, t, x)
=============================================================================
