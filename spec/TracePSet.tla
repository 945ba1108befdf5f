----------------------------- MODULE TracePSet ------------------------------
(* Checks real particle sets, trajectories and snapshots against PSet.       *)
EXTENDS PSet, TraceLib

tvars == <<pvars, tr, l, bad>>
O == Ev.obs

Init == TraceInit /\ objs = <<>>

Set(s) == Range(s)
Props(ps) == [m \in { ps[i].name : i \in DOMAIN ps } |->
    LET p == ps[CHOOSE i \in DOMAIN ps : ps[i].name = m]
    IN [shape |-> p.shape, type |-> p.type, vals |-> p.vals]]

\* All that is shown of one object.
LookClauses(s) ==
    LET o == s.o
        want == DOMAIN objs[o].props
        get(lst, m) == lst[CHOOSE i \in DOMAIN lst : lst[i].name = m].vals
        names(lst) == { lst[i].name : i \in DOMAIN lst }
    IN Failing({
         <<"length", s.len = objs[o].n>>,
         <<"own-scalar", s.tag = objs[o].tag>>,
         <<"property-list", names(s.dict) = want /\ Len(s.dict) = Cardinality(want)>>,
         <<"as-dict-values", \A m \in want \cap names(s.dict) : get(s.dict, m) = Whole(o, m)>>,
         <<"read-values", \A m \in want \cap names(s.gets) : get(s.gets, m) = Whole(o, m)>>,
         <<"readable", want \subseteq names(s.gets)>>,
         <<"schema", Set(s.schema) = Schema(o) /\ Len(s.schema) = Cardinality(want)>>,
         <<"ext-schema", Set(s.ext) = ExtSchema(o)>>,
         <<"has-property", { m \in Set(s.asked) : Has(o, m) } = Set(s.has)>> })

Apply ==
    CASE Ev.op = "create" -> Create(Ev.o, Ev.kind, Ev.tag, Ev.n, Props(Ev.props)) /\ Advance({})
      [] Ev.op = "set" -> SetProp(Ev.o, Ev.prop.name, Props(<<Ev.prop>>)[Ev.prop.name]) /\ Advance({})
      [] Ev.op = "set_sel" -> SetSel(Ev.o, Ev.name, Ev.ixs, Ev.vals) /\ Advance({})
      [] Ev.op = "read" ->
            UNCHANGED pvars /\ Advance(Failing({
                <<"selected-values", O.vals = Read(Ev.o, Ev.name, Ev.ixs)>> }))
      [] Ev.op = "table" ->
            UNCHANGED pvars /\ Advance(Failing({
                <<"table-rows", O.rows = Table(Ev.o, Ev.ixs)>> }))
      [] Ev.op = "look" ->
            UNCHANGED pvars /\ Advance(
                UNION { LookClauses(s) : s \in Set(O.objs) }
                \cup Failing({ <<"objects", { s.o : s \in Set(O.objs) } = DOMAIN objs>> }))

Quiet == UNCHANGED pvars
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
