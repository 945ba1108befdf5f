------------------------------ MODULE TracePlot -----------------------------
(* Checks real histograms and figures against Hist and Plot.                 *)
EXTENDS Hist, Plot, TraceLib
tvars == <<gvars, tr, l, bad>>
O == Ev.obs
Init == TraceInit /\ figs = <<>>

Unit == 1000000
BinClauses(o) ==
    LET d == InScale(Ev.data, Ev.zero, Ev.log)
        n == Len(o.edges) - 1
        ok == n = Ev.n /\ Len(o.shares) = n /\ Growing(o.edges)
        spread == Cardinality(Range(d)) > 1
    IN Failing({
        <<"number-of-bins", n = Ev.n /\ Len(o.shares) = n>>,
        <<"edges-in-order", Growing(o.edges)>>,
        <<"range-of-bins", spread => Ends(d, o.edges)>>,
        <<"equal-bins", spread => Even(o.place, Unit, 4 * Ev.n)>>,
        <<"share-of-each-bin", ok => \A k \in 1..n :
              Abs(o.shares[k] - 1000 * CountIn(d, o.edges, k)) <= 1>>,
        <<"each-sample-once", ok => SumSeq(Counts(d, o.edges)) = Len(d)>>,
        <<"integrates-to-one", Abs(o.total - Unit) <= 2>> })

Shown == { [f |-> O.figs[i].f, panels |-> O.figs[i].panels] : i \in DOMAIN O.figs }
FigClauses ==
    LET panels(f) == (CHOOSE s \in Shown : s.f = f).panels
        same(f, g(_)) == Len(panels(f)) = Len(figs'[f]) /\
            \A k \in DOMAIN figs'[f] : g(panels(f)[k]) = g(figs'[f][k])
        c(p) == p.curves
        a(p) == p.arrows
        s(p) == <<p.logx, p.logy>>
    IN Failing({ <<"figures", { x.f : x \in Shown } = DOMAIN figs'>> })
       \cup IF { x.f : x \in Shown } # DOMAIN figs' THEN {} ELSE Failing({
          <<"curves", \A f \in DOMAIN figs' : same(f, c)>>,
          <<"arrows", \A f \in DOMAIN figs' : same(f, a)>>,
          <<"scales", \A f \in DOMAIN figs' : same(f, s)>> })

Apply ==
    CASE Ev.op = "bins" -> UNCHANGED gvars /\ Advance(BinClauses(O))
      [] Ev.op = "hist" ->
            Histogram(Ev.f, Ev.starts, Ev.dens, Ev.log, Ev.logd) /\ Advance(FigClauses)
      [] Ev.op = "vectors" ->
            Vectors(Ev.f, Ev.xs, Ev.comps, Ev.arrows) /\
            Advance(FigClauses \cup Failing({
                <<"figure-returned", O.returned = Ev.f>>,
                <<"limits", \A k \in DOMAIN O.limits :
                    Abs(O.limits[k][1] - Ev.limits[k][1]) <= 2 /\
                    Abs(O.limits[k][2] - Ev.limits[k][2]) <= 2>>,
                <<"ticks", \A k \in DOMAIN O.ticks :
                    /\ Len(O.ticks[k]) = Ev.nticks
                    /\ Abs(O.ticks[k][1] - Ev.ends[k][1]) <= 2
                    /\ Abs(O.ticks[k][Ev.nticks] - Ev.ends[k][2]) <= 2
                    /\ \A j \in 1..Ev.nticks :
                         Abs((O.ticks[k][j] - Ev.ends[k][1]) * (Ev.nticks - 1)
                              - (Ev.ends[k][2] - Ev.ends[k][1]) * (j - 1)) <= 4 * Ev.nticks>>,
                <<"label", O.label>> }))
Quiet == UNCHANGED gvars
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
