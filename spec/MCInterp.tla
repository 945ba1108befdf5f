------------------------------ MODULE MCInterp ------------------------------
(* An interpolant that remembers what it found (neighbours, and data matched *)
(* to them) and forgets it when the scene changes, on all histories of up to *)
(* MaxSteps operations on a small scene: what it answers is always what a    *)
(* fresh one would; the mean is within the neighbours' data; the companion's *)
(* data have no effect.                                                      *)
EXTENDS Interp, TLC
CONSTANTS MaxSteps, Methods, Ks
VARIABLES par, nb, matched, steps
vars == <<ivars, par, nb, matched, steps>>

P(x) == <<x, 0, 0>>
Fields == { <<P(0), P(1), P(3)>>, <<P(1), P(2)>>, <<P(3), P(1), P(0), P(2)>> }
Points == { <<P(0)>>, <<P(2), P(1)>> }
Datas == { <<<<5>>, <<0 - 2>>, <<3>>, <<9>>>>, <<<<1>>, <<2>>, <<7>>, <<0>>>> }
Init == /\ par \in [method : Methods, k : Ks, r : {<<>>, <<5>>}, p : {0, 1, 2, 4},
                    bins : {<<0, 3>>}, hist : {<<<<3>>, <<1>>>>},
                    kernel : {<<4000, 1600, 200, 10, 1, 0, 0, 0, 0, 0>>}]
        /\ scene = [tr |-> <<P(0), P(1), P(3)>>, pts |-> <<P(2), P(1)>>, comp |-> <<>>,
                    data |-> <<<<5>>, <<0 - 2>>, <<3>>, <<9>>>>]
        /\ nb = <<>> /\ matched = <<>> /\ steps = 0

\* the choice of one of the possible neighbour sets has to be by the scene.
Pick(sc, i) == CHOOSE S \in ScenePick(sc, par, i) : TRUE
Fresh(sc) == [i \in DOMAIN sc.pts |-> Pick(sc, i)]
FreshMatch(sc) == [i \in DOMAIN sc.pts |-> [j \in Pick(sc, i) |-> sc.data[j]]]
Step == steps < MaxSteps /\ steps' = steps + 1 /\ UNCHANGED par
Drop == nb' = <<>> /\ matched' = <<>>
Next ==
    /\ Step
    /\ \/ \E f \in Fields : SetField(f) /\ Drop
       \/ \E ps \in Points, c \in 0..2 :
            SetPoints(ps, IF c = 0 THEN <<>> ELSE <<[i \in DOMAIN ps |-> c]>>) /\ Drop
       \/ \E d \in Datas : SetData(d) /\ matched' = <<>> /\ UNCHANGED nb
       \/ \E w \in [DOMAIN scene.pts -> BOOLEAN] :
            /\ Trim(w)
            /\ nb' = (IF nb = <<>> THEN nb ELSE <<Keep(nb[1], w)>>)
            /\ matched' = (IF matched = <<>> THEN matched ELSE <<Keep(matched[1], w)>>)
       \/ UNCHANGED scene /\ nb' = <<IF nb = <<>> THEN Fresh(scene) ELSE nb[1]>> /\ UNCHANGED matched
       \/ UNCHANGED scene /\ nb' = <<IF nb = <<>> THEN Fresh(scene) ELSE nb[1]>> /\
          matched' = <<IF matched = <<>> THEN
             [i \in DOMAIN scene.pts |-> [j \in nb'[1][i] |-> scene.data[j]]] ELSE matched[1]>>
Spec == Init /\ [][Next]_vars

Current == /\ nb # <<>> => nb[1] = Fresh(scene)
           /\ matched # <<>> => matched[1] = FreshMatch(scene)
Sets(i) == ScenePick(scene, par, i)
Right == \A i \in DOMAIN scene.pts :
    /\ Sets(i) # {}
    /\ \A S \in Sets(i) : Neighbours(scene, par, i, S) /\ Comp(scene, i) \notin S
    /\ \A S \in SUBSET Cands(scene, i, par.r) : Neighbours(scene, par, i, S) => S \in Sets(i)
Within == par.method # "rbf" => \A i \in DOMAIN scene.pts : \A S \in Sets(i) : S # {} =>
    LET v == Value(scene, par, i, S, 1)
        ds == { 1000 * scene.data[j][1] : j \in S }
    IN v >= SetMin(ds) - Slack(par) /\ v <= SetMax(ds) + Slack(par)
Deaf == \A i \in DOMAIN scene.pts : Comp(scene, i) \in DOMAIN scene.tr =>
    LET other == [scene EXCEPT !.data[Comp(scene, i)] = <<0 - 9>>]
    IN \A S \in Sets(i) : S # {} =>
        /\ S \in ScenePick(other, par, i)
        /\ Value(scene, par, i, S, 1) = Value(other, par, i, S, 1)
\* With one neighbour the mean is its value; on a tracer's data of all the
\* same value the mean is that value.
Alone == par.method # "rbf" => \A i \in DOMAIN scene.pts : \A S \in Sets(i) :
    Cardinality(S) = 1 =>
        \A j \in S : Abs(Value(scene, par, i, S, 1) - 1000 * scene.data[j][1]) <= 1
=============================================================================
