---------------------------- MODULE TraceFormats ----------------------------
(* Checks what the real readers and writers do against Formats.              *)
EXTENDS Formats, TraceLib

tvars == <<fvars, tr, l, bad>>
O == Ev.obs
Keys == Traces[tr].keys       \* [name, width, type] of the saved properties

Init == TraceInit /\ store = {} /\ adds = {} /\ free = {} /\ acc = {}

Pts(shown) == [i \in DOMAIN shown.rows |-> [t |-> shown.rows[i].t, v |-> shown.rows[i].v]]
Timely(s) == StrictlyIncreasing([i \in DOMAIN s |-> s[i].t])
SchemaOk(s) == Range(s) = Range(Keys) /\ Len(s) = Len(Keys)

TrajsClauses(shown, want, typed) ==
    LET ids == { shown[i].id : i \in DOMAIN shown }
        of(i) == CHOOSE c \in want : c.id = shown[i].id
        known == { i \in DOMAIN shown : \E c \in want : c.id = shown[i].id }
        times(s) == { s[k].t : k \in DOMAIN s }
    IN Failing({
         <<"trajectory-ids", ids = { c.id : c \in want } /\ Cardinality(ids) = Len(shown)>>,
         <<"trajectory-times", \A i \in known :
              times(Pts(shown[i])) = times(of(i).pts) /\ Timely(Pts(shown[i]))>>,
         <<"trajectory-values", \A i \in known : Pts(shown[i]) = of(i).pts>>,
         <<"trajectory-types", typed => \A i \in DOMAIN shown : SchemaOk(shown[i].schema)>> })

AddsClauses(o) ==
    LET ids == { o.trajs[i].id : i \in DOMAIN o.trajs }
        mine(S) == { a \in S : a.id \in ids }
    IN Failing({ <<"attached", mine(Range(o.adds)) = mine(adds)
                               /\ Cardinality(mine(Range(o.adds))) =
                                  Cardinality({ i \in DOMAIN o.adds : o.adds[i].id \in ids })>> })

\* Paths read from accumulation files.
AccClauses(shown, want) ==
    Failing({
      <<"path-count", Len(shown) = Len(want)>>,
      <<"paths", { shown[i].pts : i \in DOMAIN shown } =
                 { [k \in DOMAIN p |-> [t |-> p[k].t, p |-> [x |-> p[k].p.x,
                      v |-> p[k].p.v, a |-> p[k].p.a]]] : p \in Range(want) }>>,
      <<"path-ids", Cardinality({ shown[i].id : i \in DOMAIN shown }) = Len(shown)>> })

LongEnough(tj) == Len(tj) >= Max2(1, IF IsNone(Ev.minlen) THEN 2 ELSE Get(Ev.minlen))

\* A table row of a frame: position, velocity and age.
CellOf(a, d) == [x |-> a.path[a.k + d].x, v |-> a.path[a.k + d].v, age |-> a.path[a.k + d].g]
CollectClauses(o, parts) ==
    LET pairs == { IF Ev.seg THEN <<CellOf(a, 0), CellOf(a, 1)>> ELSE <<CellOf(a, 0)>>
                   : a \in parts }
        got == Range(o.rows)
        where(S) == { p[1].x : p \in S }
    IN Failing({
         <<"collected-missing", where(pairs) \subseteq where(got)>>,
         <<"collected-foreign", got \subseteq pairs>>,
         <<"collected-once", Len(o.rows) = Cardinality(where(got))>> })

Quiet == UNCHANGED fvars
ToSet(s) == Range(s)

Apply ==
    CASE Ev.op = "save_table" -> SaveTable(ToSet(Ev.trajs)) /\ Advance({})
      [] Ev.op = "save_dir" ->
            SaveDir(ToSet(Ev.trajs), ToSet(Ev.adds), ToSet(Ev.free)) /\ Advance({})
      [] Ev.op = "save_acc" -> SaveAcc(ToSet(Ev.files)) /\ Advance({})
      [] Ev.op = "read" ->
            /\ Quiet
            /\ Advance(
                 IF Ev.src = "acc"
                 THEN AccClauses(O.paths, IF Ev.generic
                        THEN SelectSeq(AccRead(Ev.first, Ev.last), LongEnough)
                        ELSE AccRead(Ev.first, Ev.last))
                 ELSE IF Ev.src = "mat"
                 THEN TrajsClauses(O.trajs, IF Ev.generic THEN ReadWhole(store, Ev.minlen)
                                            ELSE store, FALSE)
                 ELSE IF Ev.generic
                 THEN TrajsClauses(O.trajs, Read(store, Ev.first, Ev.last, Ev.minlen), TRUE)
                 ELSE TrajsClauses(O.trajs, Read(store, Ev.first, Ev.last, Some(1)), TRUE)
                      \cup AddsClauses(O))
      [] Ev.op = "read_free" ->
            Quiet /\ Advance(Failing({ <<"free-arrays", ToSet(O.free) = free>> }))
      [] Ev.op = "infer" ->
            Quiet /\ Advance(Failing({ <<"format", O.fmt = Format(Ev.features)>> }))
      [] Ev.op = "collect" ->
            Quiet /\ Advance(CollectClauses(O, AccParticles(Ev.frame, Ev.seg)))

Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
