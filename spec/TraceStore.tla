----------------------------- MODULE TraceStore -----------------------------
(* Checks behaviours of the real tables and scenes against Store.            *)
EXTENDS Store, TraceLib

tvars == <<rows, tags, lo, hi, iters, obs, tr, l, bad>>

Keys == Traces[tr].keys            \* sequence of <<name, width, type>>
O == Ev.obs

Init == /\ TraceInit
        /\ rows = {} /\ tags = {} /\ lo = None /\ hi = None
        /\ iters = <<>> /\ obs = <<>>

\* What the code showed as rows, against the rows it should have shown.
Exactly(shown, rs) == /\ Len(shown) = Cardinality(rs)
                      /\ Range(shown) = rs
InTime(shown) == StrictlyIncreasing([i \in DOMAIN shown |-> shown[i].t])
SchemaOk(s) == Range(s) = Range(Keys) /\ Len(s) = Len(Keys)

Missing(shown, rs) == \E r \in rs : ~ \E q \in Range(shown) : q.id = r.id /\ q.t = r.t
Extra(shown, rs) == \E q \in Range(shown) : ~ \E r \in rs : q.id = r.id /\ q.t = r.t

RowClauses(shown, rs) ==
    Failing({ <<"missing-row", ~Missing(shown, rs)>>,
              <<"foreign-row", ~Extra(shown, rs)>>,
              <<"row-values", Exactly(shown, rs)>> })

FrameClauses(o, e) ==
    RowClauses(o.rows, e.rows) \cup
    Failing({ <<"frame-time", o.t = e.t>>, <<"schema", SchemaOk(o.schema)>> })

TrajClauses(o, e) ==
    RowClauses(o.rows, e.rows) \cup
    Failing({ <<"traj-id", o.id = e.id>>,
              <<"time-order", InTime(o.rows)>>,
              <<"schema", SchemaOk(o.schema)>> })

SegClauses(o, e) ==
    RowClauses(o.rows, e.rows) \cup RowClauses(o.nrows, e.nrows) \cup
    Failing({ <<"frame-time", o.t = e.t /\ o.nt = e.t + 1>>,
              <<"row-alignment",
                /\ Len(o.rows) = Len(o.nrows)
                /\ \A i \in DOMAIN o.rows : i \in DOMAIN o.nrows =>
                      o.rows[i].id = o.nrows[i].id>>,
              <<"schema", SchemaOk(o.schema) /\ SchemaOk(o.nschema)>> })

Cell(r, k) == IF k = 0 THEN <<r.id>> ELSE IF k = -1 THEN <<r.t>> ELSE r.v[k]
Cells(r, ks) == [i \in DOMAIN ks |-> Cell(r, ks[i])]

CollectClauses(o, ks, rs) ==
    LET n == Cardinality(rs)
        aligned == /\ Len(o.cols) = Len(ks)
                   /\ \A i \in DOMAIN o.cols : Len(o.cols[i]) = n
        tuple(j) == [i \in DOMAIN ks |-> o.cols[i][j]]
    IN IF ~aligned THEN { "selected-count" }
       ELSE Failing({ <<"selected-rows",
              /\ { tuple(j) : j \in 1..n } = { Cells(r, ks) : r \in rs }
              /\ \A r \in rs :
                    Cardinality({ j \in 1..n : tuple(j) = Cells(r, ks) })
                    = Cardinality({ q \in rs : Cells(q, ks) = Cells(r, ks) })>> })

InLoad(r, e) == /\ IsNone(e.first) \/ r.t >= Get(e.first)
                /\ IsNone(e.last) \/ r.t <= Get(e.last)

LoadClauses(o, e) ==
    LET full == { i \in DOMAIN o.trajs : Len(o.trajs[i].rows) > 0 }
        want == { r \in rows : InLoad(r, e) }
    IN Failing({ <<"loaded-ids",
                    /\ { o.trajs[i].id : i \in full } = Ids(want)
                    /\ \A i, j \in DOMAIN o.trajs :
                          o.trajs[i].id = o.trajs[j].id => i = j>> })
       \cup UNION { RowClauses(o.trajs[i].rows,
                               { r \in want : r.id = o.trajs[i].id })
                    \cup Failing({ <<"time-order", InTime(o.trajs[i].rows)>>,
                                   <<"schema", SchemaOk(o.trajs[i].schema)>> })
                    : i \in DOMAIN o.trajs }

Apply ==
    CASE Ev.op = "save_trajs" -> SaveTrajs(Ev.trajs, Ev.trim) /\ Advance({})
      [] Ev.op = "save_frames" -> SaveFrames(Ev.frames) /\ Advance({})
      [] Ev.op = "given" -> Given(Range(Ev.rows)) /\ Advance({})
      [] Ev.op = "set_range" -> ChangeRange(Ev.lo, Ev.hi) /\ Advance({})
      [] Ev.op = "start" ->
            /\ CASE Ev.kind = "frame" -> StartFrames(Ev.h)
                 [] Ev.kind = "seg" -> StartSegs(Ev.h)
                 [] Ev.kind = "traj" -> StartTrajs(Ev.h)
            /\ Advance({})
      [] Ev.op = "next" ->
            LET it == iters[Ev.h] IN
            IF it.kind = "traj" THEN
               IF O.kind = "stop" THEN
                  \* leaving out trajectories with nothing in range is no loss.
                  /\ obs' = [kind |-> "stop"] /\ Unch
                  /\ Advance(Failing({ <<"missing-traj",
                        \A i \in it.left : TrajRows(i) = {}>> }))
               ELSE IF O.id \in it.left THEN
                  NextTraj(Ev.h, O.id) /\ Advance(TrajClauses(O, obs'))
               ELSE /\ obs' = <<>> /\ Unch /\ Advance({ "foreign-traj" })
            ELSE IF Done(it) THEN
               Stop(Ev.h) /\ Advance(Failing({ <<"no-stop", O.kind = "stop">> }))
            ELSE IF O.kind = "stop" THEN
               obs' = <<>> /\ Unch /\ Advance({ "early-stop" })
            ELSE IF it.kind = "frame" THEN
               NextFrame(Ev.h) /\ Advance(FrameClauses(O, obs'))
            ELSE NextSeg(Ev.h) /\ Advance(SegClauses(O, obs'))
      [] Ev.op = "close" ->     \* an abandoned iteration
            /\ iters' = [h \in DOMAIN iters \ {Ev.h} |-> iters[h]]
            /\ obs' = <<>> /\ UNCHANGED <<rows, tags, lo, hi>> /\ Advance({})
      [] Ev.op = "traj_by_id" -> TrajById(Ev.id) /\ Advance(TrajClauses(O, obs'))
      [] Ev.op = "frame_by_time" -> FrameByTime(Ev.t) /\ Advance(FrameClauses(O, obs'))
      [] Ev.op = "collect" ->
            Collect(Ev.conds) /\ Advance(CollectClauses(O, Ev.ks, obs'.rows))
      [] Ev.op = "ask_range" ->
            AskRange /\ Advance(Failing({ <<"frame-range",
                O.first = obs'.first /\ O.after = obs'.after>> }))
      [] Ev.op = "ask_ids" ->
            AskIds /\ Advance(Failing({ <<"ids",
                Range(O.ids) = obs'.ids /\ Len(O.ids) = Cardinality(obs'.ids)>> }))
      [] Ev.op = "ask_tags" ->
            AskTags /\ Advance(Failing({ <<"tags",
                Range(O.tags) = obs'.tags /\ Len(O.tags) = Cardinality(obs'.tags)>> }))
      [] Ev.op = "ask_keys" ->
            /\ obs' = <<>> /\ Unch
            /\ Advance(Failing({ <<"keys",
                 /\ Range(O.keys) = { <<k[1], k[2]>> : k \in Range(Keys) }
                 /\ Len(O.keys) = Len(Keys)>> }))
      [] Ev.op = "ask_box" ->
            LET rs == IF Ev.all THEN rows ELSE InRange IN
            AskBox(rs, Ev.key, 3) /\ Advance(Failing({ <<"bounding-box",
                O.min = obs'.min /\ O.max = obs'.max>> }))
      [] Ev.op = "load_table" ->
            obs' = <<>> /\ Unch /\ Advance(LoadClauses(O, Ev))

Quiet == UNCHANGED <<rows, tags, lo, hi, iters, obs>>

Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet

Spec == Init /\ [][Next]_tvars
=============================================================================
