-------------------------------- MODULE Plot --------------------------------
(* Figures as drawn by the graphics routines.  A figure is a sequence of     *)
(* panels, a panel has a sequence of curves [x, y] and scales of the axes.   *)
EXTENDS Util

VARIABLES figs       \* [number of the figure -> sequence of panels]
gvars == <<figs>>

Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Panel(cs, ars) == [curves |-> cs, arrows |-> ars, logx |-> FALSE, logy |-> FALSE]

\* A vector quantity: one panel for each component; drawing into a figure that
\* has its panels adds the curves to what it has.
Vectors(f, xs, comps, arrows) ==
    LET old(k) == IF f \in DOMAIN figs THEN figs[f][k] ELSE Panel(<<>>, <<>>)
    IN figs' = Upd(figs, f, [k \in 1..3 |->
         [old(k) EXCEPT !.curves = Append(@, [x |-> xs, y |-> comps[k]]),
                        !.arrows = IF arrows = <<>> THEN @
                                   ELSE Append(@, [x |-> xs, y |-> comps[k], v |-> arrows[k]])]])

\* A distribution: one panel, on the scales asked for; an axis that is
\* logarithmic remains so.
Histogram(f, starts, dens, logx, logy) ==
    LET old == IF f \in DOMAIN figs THEN figs[f][1] ELSE Panel(<<>>, <<>>)
    IN figs' = Upd(figs, f, <<[curves |-> Append(old.curves, [x |-> starts, y |-> dens]),
          arrows |-> old.arrows, logx |-> old.logx \/ logx, logy |-> old.logy \/ logy]>>)

(* ------------------------------------------------------------- properties *)
Prefix(s, u) == Len(s) <= Len(u) /\ \A i \in DOMAIN s : s[i] = u[i]
\* Nothing drawn is lost, and one drawing is into one figure.
Accumulates == [][
    /\ DOMAIN figs \subseteq DOMAIN figs'
    /\ Cardinality({ f \in DOMAIN figs' : f \notin DOMAIN figs \/ figs'[f] # figs[f] }) <= 1
    /\ \A f \in DOMAIN figs : \A k \in DOMAIN figs[f] :
          Prefix(figs[f][k].curves, figs'[f][k].curves) ]_gvars
=============================================================================
