----------------------------- MODULE TraceSmooth ----------------------------
(* Checks real smoothings against Smooth.                                    *)
EXTENDS Smooth, TraceLib
VARIABLE given      \* the trajectories
tvars == <<given, tr, l, bad>>
O == Ev.obs
Init == TraceInit /\ given = <<>>

H == (Ev.window - 1) \div 2
T == Tables[H][Ev.order]
Kept == SelectSeq(given, LAMBDA t : t.len >= Ev.window)

\* One component of one trajectory: g the smoothed, y the given values.
FitClauses(y, g) ==
    LET n == Len(y)
        order == Ev.order
        ext == Continued(y, H)
        near(a, b, e) == Abs(a - b) <= e * (order + 1) + 1
        at(i) == LET w == Around(ext, i, H)
                     c == <<Coef(w, H, T, order, 0), Coef(w, H, T, order, 1),
                            Coef(w, H, T, order, 2), Coef(w, H, T, order, 3)>>
                 IN { <<"smoothed-position", near(g.pos[i], c[1], 1)>>,
                      <<"velocity", near(g.vel[i], c[2], 1)>>,
                      <<"acceleration", near(g.acc[i], 2 * c[3], 2)>> }
                    \cup IF i = n THEN {} ELSE
                    { <<"predicted-velocity", near(g.nvel[i + 1], c[2] + 2 * c[3] + 3 * c[4], 6)>>,
                      <<"predicted-acceleration", near(g.nacc[i + 1], 2 * c[3] + 6 * c[4], 8)>> }
    IN IF Len(g.pos) # n \/ Len(g.vel) # n \/ Len(g.acc) # n \/ Len(g.nvel) # n \/ Len(g.nacc) # n
       THEN {"lengths"}
       ELSE UNION { Failing(at(i)) : i \in 1..n }

TrajClauses(t, s) ==
    Failing({
        <<"id", s.id = t.id>>,
        <<"times", s.ts = t.ts>>,
        <<"length", s.len = t.len>>,
        <<"properties", s.props = t.props>> })
    \cup UNION { FitClauses(t.pos[k], s.fit[k]) : k \in 1..3 }

Apply ==
    CASE Ev.op = "given" -> given' = Ev.trajs /\ Advance({})
      [] Ev.op = "smooth" ->
            /\ UNCHANGED given
            /\ Advance(Failing({
                 <<"accepted", O.accepted = Valid(Ev.window, Ev.order)>>,
                 <<"input-unchanged", O.unchanged>> })
               \cup IF ~O.accepted \/ ~Valid(Ev.window, Ev.order) THEN {}
               ELSE IF Len(O.trajs) # Len(Kept) THEN {"long-enough-trajectories"}
               ELSE UNION { TrajClauses(Kept[i], O.trajs[i]) : i \in DOMAIN Kept })
Quiet == UNCHANGED given
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
