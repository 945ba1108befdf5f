------------------------------- MODULE MCPSet -------------------------------
EXTENDS PSet, TLC
CONSTANTS Names, NObjs, Vals
Init == objs = <<>>
N == 2
Ps == { [shape |-> s, type |-> ty, vals |-> vs] : s \in {<<>>}, ty \in {"f", "i"},
        vs \in [1..N -> Vals] }
Ixs == { <<1>>, <<2>>, <<2, 1>>, <<1, 2>>, <<>> }
Next ==
    \/ \E o \in 1..NObjs : o \notin DOMAIN objs /\
         \E m \in Names, p \in Ps : Create(o, "set", 0, N, [x \in {m} |-> p])
    \/ \E o \in DOMAIN objs :
         \/ \E m \in Names, p \in Ps : SetProp(o, m, p)
         \/ \E m \in DOMAIN objs[o].props, ixs \in Ixs :
              \E vs \in [1..Len(ixs) -> Vals] :
                /\ SetSel(o, m, ixs, vs)
                /\ Assert([k \in DOMAIN ixs |-> objs'[o].props[m].vals[ixs[k]]] = vs, "read back")
                /\ Assert(\A i \in 1..N : i \notin Range(ixs) =>
                       objs'[o].props[m].vals[i] = objs[o].props[m].vals[i], "others kept")
Spec == Init /\ [][Next]_pvars
=============================================================================
