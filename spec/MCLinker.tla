------------------------------ MODULE MCLinker ------------------------------
(* All consistent link structures of a few frames.                           *)
EXTENDS Linker, TLC, Json

CONSTANTS MaxFrames, MaxParts, Record

VARIABLES closed
mcvars == <<lvars, closed>>

Init == LInit /\ closed = FALSE

\* A frame continues, in any row order, each row of the last one that did not
\* end; the rest of its rows are new.
NextFrames ==
    LET going == IF frames = <<>> THEN {}
                 ELSE { r \in DOMAIN frames[Len(frames)].parts :
                          ~frames[Len(frames)].parts[r].ended }
        X(n, r) == <<10 * n + r * r, n * n, r>>
    IN UNION { UNION { { [num |-> Len(frames) + 1,
                   parts |-> [r \in 1..k |-> [prev |-> p[r], ended |-> e[r],
                                              x |-> X(Len(frames) + 1, r),
                                              v |-> Zero]]]
                   : e \in [1..k -> BOOLEAN] }
                 : p \in { q \in [1..k -> going \cup {0}] :
                             \A g \in going : Cardinality({ r \in 1..k : q[r] = g }) = 1 } }
               : k \in 0..MaxParts }

Step == /\ ~closed /\ Len(frames) < MaxFrames
        /\ \E f \in NextFrames : Feed(f)
        /\ UNCHANGED closed

Close == /\ ~closed /\ Len(frames) = MaxFrames
         /\ closed' = TRUE /\ UNCHANGED lvars
         /\ Record => PrintT("BEHAVIOUR " \o ToJson(frames))

Next == Step \/ Close
Spec == Init /\ [][Next]_mcvars
=============================================================================
