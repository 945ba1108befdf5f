----------------------------- MODULE TraceInterp ----------------------------
(* Checks real interpolations against Interp.                                *)
EXTENDS Interp, TraceLib
tvars == <<ivars, tr, l, bad>>
O == Ev.obs
Init == TraceInit /\ scene = [tr |-> <<>>, pts |-> <<>>, comp |-> <<>>, data |-> <<>>]
par == Traces[tr].par

Near(a, b) == Abs(a - b) <= Slack(par)
Dims(sc) == IF sc.data = <<>> THEN 0 ELSE Len(sc.data[1])
RowIs(sc, i, S, row) ==
    /\ Len(row) = Dims(sc)
    /\ S # {} => \A c \in DOMAIN row : Near(row[c], Value(sc, par, i, S, c))

\* What the recorded scene is said to be.
NbSet(row) == { row[k] : k \in DOMAIN row } \ {0}
NbClauses(nb) ==
    IF Len(nb) # Len(scene.pts) THEN {"one-row-for-each-point"}
    ELSE UNION { Failing({
        <<"nearest-neighbours", Neighbours(scene, par, i, NbSet(nb[i]))>>,
        <<"neighbours-once", Cardinality({ k \in DOMAIN nb[i] : nb[i][k] # 0 })
                              = Cardinality(NbSet(nb[i]))>> }) : i \in DOMAIN nb }
Good(nb) == Len(nb) = Len(scene.pts) /\
            \A i \in DOMAIN nb : NbSet(nb[i]) \subseteq DOMAIN scene.tr
Asked(k) == \E i \in DOMAIN Ev.want : Ev.want[i] = k

ValueClauses(name, v, sets) ==
    IF Len(v) # Len(scene.pts) THEN {name \o "-rows"}
    ELSE Failing({ <<name, \A i \in DOMAIN v : RowIs(scene, i, sets[i], v[i])>> })
DistClauses(d, nb) ==
    Failing({ <<"distances", Len(d) = Len(nb) /\ \A i \in DOMAIN d :
        Len(d[i]) = Len(nb[i]) /\ \A k \in DOMAIN d[i] :
            d[i][k] = IF nb[i][k] = 0 THEN 0 - 1 ELSE D2(scene.tr[nb[i][k]], scene.pts[i])>> })
RelClauses(r, nb) ==
    Failing({ <<"relative-positions", Len(r) = Len(nb) /\ \A i \in DOMAIN r :
        Len(r[i]) = Len(nb[i]) /\ \A k \in DOMAIN r[i] : nb[i][k] # 0 =>
            \A x \in 1..3 : r[i][k][x] = scene.tr[nb[i][k]][x] - scene.pts[i][x]>> })
\* A step function has no slope, unless the neighbours or their bins may change
\* nearby.
Steady(i) == /\ \A j \in DOMAIN scene.tr :
                   LET d == D2(scene.tr[j], scene.pts[i])
                   IN d > 0 /\ \A b \in DOMAIN par.bins : par.bins[b] # 2 * d
             /\ Cardinality(ScenePick(scene, par, i)) = 1
SlopeClauses(jac, sets) ==
    Failing({ <<"slopes", Len(jac) = Len(scene.pts) /\ \A i \in DOMAIN jac :
        Len(jac[i]) = Dims(scene) /\ \A c \in DOMAIN jac[i] : \A x \in 1..3 :
            CASE par.method = "inv" /\ sets[i] # {} ->
                    Abs(jac[i][c][x] - Slope(scene, par, i, sets[i], c, x)) <= SlopeSlack
              [] par.method = "corrfun" /\ sets[i] # {} /\ Steady(i) -> jac[i][c][x] = 0
              [] OTHER -> TRUE>> })

AskClauses ==
    IF scene.tr = <<>>
    THEN Failing({ <<"no-tracers", Asked("v") => Len(O.v) = Len(scene.pts) /\
             \A i \in DOMAIN O.v : \A c \in DOMAIN O.v[i] : O.v[i][c] = 0>> })
    ELSE LET nb == O.nb
             sets == [i \in DOMAIN nb |-> NbSet(nb[i])]
         IN NbClauses(nb) \cup
            IF ~Good(nb) THEN {"no-such-neighbour"} ELSE
            (IF Asked("v") THEN ValueClauses("interpolated-values", O.v, sets) ELSE {}) \cup
            (IF Asked("d") THEN DistClauses(O.d, nb) ELSE {}) \cup
            (IF Asked("rel") THEN RelClauses(O.rel, nb) ELSE {}) \cup
            (IF Asked("jac") THEN SlopeClauses(O.jac, sets) ELSE {})

\* Only some of the neighbours.
SubsetClauses ==
    LET nb == O.nb
        sets == [i \in DOMAIN nb |->
            { nb[i][k] : k \in { k \in DOMAIN nb[i] : ~Ev.drop[i][k] } } \ {0}]
    IN NbClauses(nb) \cup
       IF ~Good(nb) THEN {"no-such-neighbour"} ELSE ValueClauses("subset-values", O.v, sets)

\* Scenes given for one call.
Off == [tr |-> Ev.tr, pts |-> Ev.pts, comp |-> Ev.comp, data |-> Ev.data]
OnceClauses ==
    Failing({ <<"one-off-values", Len(O.v) = Len(Off.pts) /\ \A i \in DOMAIN O.v :
        IF Off.tr = <<>> THEN \A c \in DOMAIN O.v[i] : O.v[i][c] = 0
        ELSE \E S \in OncePick(Off, par, i) : RowIs(Off, i, S, O.v[i])>> })
SelectClauses ==
    LET p == [par EXCEPT !.k = Ev.k, !.r = Ev.r]
        set(i) == { j \in DOMAIN Off.tr : O.use[i][j] }
        d(i, j) == IF j = Comp(Off, i) THEN 0 ELSE D2(Off.tr[j], Off.pts[i])
    IN Failing({
         <<"selected-neighbours", Len(O.use) = Len(Off.pts) /\
              \A i \in DOMAIN O.use : Selected(Off, p, i, set(i))>>,
         <<"all-distances", \A i \in DOMAIN O.d : \A j \in DOMAIN Off.tr :
              O.d[i][j] = d(i, j)>> })
\* The distances of those that a one-off interpolation by number would use.
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE LET m == SetMin(Range(s))
                      i == CHOOSE i \in DOMAIN s : s[i] = m
                  IN <<m>> \o Sorted([k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]])
NdistClauses ==
    LET want(i) == LET C == Cands(Off, i, <<>>)
                       S == CHOOSE S \in Choices(Off, par.k, i, C) : TRUE
                       ds == [k \in 1..Cardinality(S) |-> D2(Off.tr[SeqOf(S)[k]], Off.pts[i])]
                   IN Sorted(ds)
        pos(row) == SelectSeq(row, LAMBDA x : x # 0)
    IN Failing({ <<"neighbour-distances", Len(O.rows) = Len(Off.pts) /\
         \A i \in DOMAIN O.rows : Sorted(pos(O.rows[i])) = want(i)>> })

\* Almost at a tracer the value is the tracer's, in millionths.
CloseClauses ==
    Failing({ <<"value-at-tracer", Len(O.v) = Len(Ev.at) /\ \A i \in DOMAIN O.v :
        (Ev.comp # <<>> => Ev.comp[1][i] # Ev.at[i]) =>
            \A c \in DOMAIN O.v[i] :
                Abs(O.v[i][c] - 1000000 * Ev.data[Ev.at[i]][c]) <= 5>> })

\* Fluid velocity at particles.
IndexOf(ids, x) == IF \E j \in DOMAIN ids : ids[j] = x
                   THEN CHOOSE j \in DOMAIN ids : ids[j] = x ELSE 0
FvaScene == [tr |-> Ev.tr, pts |-> Ev.pts, data |-> Ev.tvel,
    comp |-> IF Ev.comp = <<>> THEN <<>>
             ELSE <<[i \in DOMAIN Ev.pts |-> IndexOf(Ev.ids, Ev.comp[1][i])]>>]
FvaClauses(sc) ==
    LET ok(i, S) == RowIs(sc, i, S, O.fluid[i])
    IN Failing({
        <<"fluid-velocity", Len(O.fluid) = Len(sc.pts) /\ \A i \in DOMAIN O.fluid :
            IF sc.tr = <<>> THEN \A c \in 1..3 : O.fluid[i][c] = 0
            ELSE \E S \in ScenePick(sc, par, i) : ok(i, S)>>,
        <<"relative-velocity", Len(O.rel) = Len(O.fluid) /\ \A i \in DOMAIN O.rel :
            (sc.tr = <<>> \/ Cands(sc, i, par.r) # {}) =>
            \A c \in 1..3 : Abs(O.rel[i][c] - (1000 * Ev.pvel[i][c] - O.fluid[i][c])) <= 1>> })

Apply ==
    CASE Ev.op = "set_scene" -> SetScene(Ev.tr, Ev.pts, Ev.comp, Ev.data) /\ Advance({})
      [] Ev.op = "set_field" -> SetField(Ev.tr) /\ Advance({})
      [] Ev.op = "set_points" -> SetPoints(Ev.pts, Ev.comp) /\ Advance({})
      [] Ev.op = "set_data" -> SetData(Ev.data) /\ Advance({})
      [] Ev.op = "trim" -> Trim(Ev.which) /\ Advance({})
      [] Ev.op = "ask" -> UNCHANGED ivars /\ Advance(AskClauses)
      [] Ev.op = "shown" ->
            UNCHANGED ivars /\ Advance(Failing({
                <<"field-positions", O.field = scene.tr>>,
                <<"current-data", Ev.data => O.data = scene.data>> }))
      [] Ev.op = "subset" -> UNCHANGED ivars /\ Advance(SubsetClauses)
      [] Ev.op = "once" -> UNCHANGED ivars /\ Advance(OnceClauses)
      [] Ev.op = "close" -> UNCHANGED ivars /\ Advance(CloseClauses)
      [] Ev.op = "select" -> UNCHANGED ivars /\ Advance(SelectClauses)
      [] Ev.op = "ndists" -> UNCHANGED ivars /\ Advance(NdistClauses)
      [] Ev.op = "fva" -> scene' = FvaScene /\ Advance(FvaClauses(FvaScene))
Quiet == UNCHANGED ivars
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
