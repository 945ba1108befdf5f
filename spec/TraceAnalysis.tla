--------------------------- MODULE TraceAnalysis ----------------------------
(* Checks real analyses, and joint views of them, against Analysis.          *)
EXTENDS Analysis, TraceLib

VARIABLE tab     \* the analysis in the file
tvars == <<avars, tab, tr, l, bad>>
O == Ev.obs

Init == /\ TraceInit
        /\ prow = {} /\ trow = {} /\ lo = None /\ hi = None /\ nan = 0
        /\ at = <<>> /\ res = {} /\ tab = {}

Exactly(shown, rs) == Len(shown) = Cardinality(rs) /\ Range(shown) = rs
SameSchema(a, b) == Range(a) = Range(b) /\ Len(a) = Len(b)

ShownClauses(e, s) ==
    Failing({ <<"shown-time", e.t = s.t /\ e.nt = s.t + 1 /\ e.qt = s.t /\ e.nqt = s.t + 1>>,
              <<"shown-particles", Exactly(e.p, s.p) /\ Exactly(e.pn, s.pn)>>,
              <<"shown-tracers", Exactly(e.q, s.q) /\ Exactly(e.qn, s.qn)>> })

TableClauses(o, e) ==
    LET want == tab'
        key(r) == [id |-> r.id, t |-> r.t]
    IN Failing({
         <<"row-each", Len(o.rows) = Cardinality(want)
                       /\ { key(r) : r \in Range(o.rows) } = { key(r) : r \in want }>>,
         <<"results", Range(o.rows) \subseteq want>>,
         <<"columns", SameSchema(o.schema, e.schema)>>,
         <<"config", o.config = e.config>>,
         <<"trajects", o.trajects = e.trajects>> })

\* A requested column: [an, key].
Cell(ra, k) == IF k.key = 0 THEN <<ra[1].id>> ELSE IF k.key = -1 THEN <<ra[1].t>>
               ELSE IF k.an THEN ra[2].c[k.key] ELSE ra[1].v[k.key]
JoinClauses(o, ks, js) ==
    LET n == Cardinality(js)
        aligned == /\ Len(o.cols) = Len(ks)
                   /\ \A i \in DOMAIN o.cols : Len(o.cols[i]) = n
        tuple(j) == [i \in DOMAIN ks |-> o.cols[i][j]]
        cells(ra) == [i \in DOMAIN ks |-> Cell(ra, ks[i])]
    IN IF ~aligned THEN { "joined-count" }
       ELSE Failing({ <<"joined-rows",
              /\ { tuple(j) : j \in 1..n } = { cells(ra) : ra \in js }
              /\ \A ra \in js : Cardinality({ j \in 1..n : tuple(j) = cells(ra) })
                              = Cardinality({ rb \in js : cells(rb) = cells(ra) })>> })

TrajClauses(o, rs, schema) ==
    Failing({ <<"trajectory-rows", Exactly(o.rows, rs)>>,
              <<"trajectory-order",
                StrictlyIncreasing([i \in DOMAIN o.rows |-> o.rows[i].t])>>,
              <<"trajectory-columns", SameSchema(o.schema, schema)>> })

\* Each point of a trajectory with its own results.
WithResults(rs) ==
    { [id |-> r.id, t |-> r.t, v |-> r.v,
       c |-> (CHOOSE a \in tab : a.id = r.id /\ a.t = r.t).c] : r \in rs }

Quiet == UNCHANGED <<avars, tab>>
Answer(e) == { [id |-> e.ans[i].id, c |-> e.ans[i].c] : i \in DOMAIN e.ans }

Apply ==
    CASE Ev.op = "begin" ->
            /\ Begin(Range(Ev.p), Range(Ev.q), Ev.lo, Ev.hi, Ev.nan)
            /\ UNCHANGED tab /\ Advance({})
      [] Ev.op = "call" ->
            IF at[Ev.k] >= AfterSegs
            THEN Quiet /\ Advance({ "shown-too-much" })
            ELSE /\ Advance(IF Traces[tr].lenient THEN {} ELSE ShownClauses(Ev, Shown(Ev.k)))
                 /\ res' = res \cup { [k |-> Ev.k, id |-> a.id, t |-> at[Ev.k], c |-> a.c]
                                      : a \in Answer(Ev) }
                 /\ at' = [at EXCEPT ![Ev.k] = @ + 1]
                 /\ UNCHANGED <<prow, trow, lo, hi, nan, tab>>
      [] Ev.op = "table" ->
            IF ~Finished THEN Quiet /\ Advance({ "shown-too-little" })
            ELSE IF \E k \in 1..nan, t \in Segs : \E r \in P!SegRows(t) :
                       ~ \E a \in res : a.k = k /\ a.id = r.id /\ a.t = t
            THEN Quiet /\ Advance({ "shown-other" })
            ELSE /\ tab' = Table
                 /\ UNCHANGED avars
                 /\ Advance(IF Traces[tr].lenient THEN {} ELSE TableClauses(O, Ev))
      [] Ev.op = "given" ->      \* an analysis file made by other means
            /\ prow' = Range(Ev.p) /\ trow' = {} /\ tab' = Range(Ev.tab)
            /\ UNCHANGED <<lo, hi, nan, at, res>>
            /\ Advance({})
      [] Ev.op = "join" ->
            /\ Quiet
            /\ Advance(JoinClauses(O, Ev.ks,
                          Joined(prow, tab, Ev.lo, Ev.hi, Ev.conds)))
      [] Ev.op = "join_keys" ->
            /\ Quiet
            /\ Advance(Failing({ <<"keys", SameSchema(O.keys, Ev.keys)>> }))
      [] Ev.op = "join_traj" ->
            /\ Quiet
            /\ Advance(Failing({ <<"trajectory-id", O.id = Ev.id>> }) \cup
                  TrajClauses(O, WithResults(JointRows(prow, tab, Ev.id, Ev.lo, Ev.hi)),
                              Ev.schema))
      [] Ev.op = "join_trajs" ->
            LET full == { i \in DOMAIN O.trajs : Len(O.trajs[i].rows) > 0 } IN
            /\ Quiet
            /\ Advance(Failing({ <<"trajectories",
                 /\ { O.trajs[i].id : i \in full } =
                       { id \in P!Ids(prow) : JointRows(prow, tab, id, Ev.lo, Ev.hi) # {} }
                 /\ \A i, j \in DOMAIN O.trajs : O.trajs[i].id = O.trajs[j].id => i = j>> })
                 \cup UNION { TrajClauses(O.trajs[i],
                        WithResults(JointRows(prow, tab, O.trajs[i].id, Ev.lo, Ev.hi)),
                        Ev.schema) : i \in full })

Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
