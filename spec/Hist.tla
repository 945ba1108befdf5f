-------------------------------- MODULE Hist --------------------------------
(* Density histograms.  Samples and edges are compared only by order, so     *)
(* they may be any integers that keep the order.                             *)
EXTENDS Util

\* The samples that are in scale.
InScale(data, zero, log) == IF log THEN SelectSeq(data, LAMBDA x : x > zero) ELSE data

InBin(x, edges, k) ==
    /\ x >= edges[k]
    /\ x < edges[k + 1] \/ (k + 1 = Len(edges) /\ x = edges[k + 1])
CountIn(data, edges, k) == Cardinality({ i \in DOMAIN data : InBin(data[i], edges, k) })
Counts(data, edges) == [k \in 1..(Len(edges) - 1) |-> CountIn(data, edges, k)]

\* Edges are those of the bins of n equal parts of the range of the data.
Ends(data, edges) == /\ edges[1] = SetMin(Range(data))
                     /\ edges[Len(edges)] = SetMax(Range(data))
Growing(edges) == \A k \in 1..(Len(edges) - 1) : edges[k] <= edges[k + 1]
\* place[k] - where the edge is in the chosen scale, in Unit-ths of the range.
Even(place, unit, slack) ==
    \A k \in DOMAIN place :
        Abs(place[k] * (Len(place) - 1) - (k - 1) * unit) <= slack
=============================================================================
