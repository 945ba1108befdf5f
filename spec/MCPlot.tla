------------------------------- MODULE MCPlot -------------------------------
EXTENDS Plot
CONSTANTS NFigs, MaxDraws
VARIABLES draws, kind
vars == <<gvars, draws, kind>>
Init == figs = <<>> /\ draws = 0 /\ kind \in [1..NFigs -> {"vec", "hist"}]
Next == /\ draws < MaxDraws /\ draws' = draws + 1 /\ UNCHANGED kind
        /\ \E f \in 1..NFigs, d \in {1, 2} :
             \/ kind[f] = "vec" /\ \E a \in BOOLEAN :
                    Vectors(f, <<1>>, <<<<d>>, <<d + 2>>, <<d>>>>,
                        IF a THEN <<<<1>>, <<2>>, <<3>>>> ELSE <<>>)
             \/ kind[f] = "hist" /\ \E lx, ly \in BOOLEAN : Histogram(f, <<1>>, <<d>>, lx, ly)
Spec == Init /\ [][Next]_vars
Panels == \A f \in DOMAIN figs : Len(figs[f]) = IF kind[f] = "vec" THEN 3 ELSE 1
Counted == LET nc(f) == Len(figs[f][1].curves)
           IN SumTo([f \in 1..NFigs |-> IF f \in DOMAIN figs THEN nc(f) ELSE 0], NFigs) = draws
=============================================================================
