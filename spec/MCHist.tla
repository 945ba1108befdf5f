------------------------------- MODULE MCHist -------------------------------
(* All data sets of up to Len values from 0..Max, in up to Bins bins: each   *)
(* sample is in exactly one bin of the equal division, so densities          *)
(* integrate to one.                                                         *)
EXTENDS Hist
CONSTANTS MaxLen, MaxVal, MaxBins
VARIABLES data, n, log
vars == <<data, n, log>>
Init == data = <<>> /\ n \in 1..MaxBins /\ log \in BOOLEAN
Next == /\ Len(data) < MaxLen
        /\ \E v \in (0 - 1)..MaxVal : data' = Append(data, v)
        /\ UNCHANGED <<n, log>>
Spec == Init /\ [][Next]_vars

D == InScale(data, 0, log)
Two == Cardinality(Range(D)) > 1
Lo == SetMin(Range(D))
Hi == SetMax(Range(D))
\* exact edges of equal parts, all times n.
Edges == [k \in 1..(n + 1) |-> Lo * n + (k - 1) * (Hi - Lo)]
Scaled == [i \in DOMAIN D |-> D[i] * n]
Share == Two => SumSeq(Counts(Scaled, Edges)) = Len(D)
Once == Two => \A i \in DOMAIN D :
    Cardinality({ k \in 1..n : InBin(Scaled[i], Edges, k) }) = 1
Right == Two => Ends(Scaled, Edges) /\ Growing(Edges) /\
    Even([k \in 1..(n + 1) |-> ((k - 1) * 60) \div n], 60, n)
=============================================================================
