----------------------------- MODULE TraceSnap ------------------------------
(* Checks what the real code takes out of lists of trajectories.             *)
EXTENDS Snap, Pairs, TraceLib

tvars == <<svars, tr, l, bad>>
O == Ev.obs
Keys == Traces[tr].keys

Init == TraceInit /\ trajs = <<>>

Set(s) == Range(s)
Once(s) == Cardinality(Range(s)) = Len(s)
\* Those of the list that are named in what was shown, by ID.
Named(ts, ids) == { i \in DOMAIN ts : ts[i].id \in ids }

SchemaOk(s, skip) == LET want == { k \in Set(Keys) : k[1] \notin skip }
                     IN Set(s) = want /\ Len(s) = Cardinality(want)
ShapesOk(s) == { <<s[i][1], s[i][2]>> : i \in DOMAIN s } =
               { <<k[1], k[2]>> : k \in Set(Keys) } /\ Len(s) = Len(Keys)

\* A snapshot of the trajectories `ts`, in order. They may be `mixed`: of
\* different types, whose values are all there nevertheless.
SnapClauses(s, ts, t, mixed) ==
    Failing({ <<"snapshot-time", s.t = t>>,
              <<"snapshot-ids", [i \in DOMAIN s.rows |-> s.rows[i].id] =
                                [i \in DOMAIN ts |-> ts[i].id]>>,
              <<"snapshot-values", s.rows = Snapshot(ts, t)>>,
              <<"snapshot-schema", IF ts = <<>> \/ mixed THEN ShapesOk(s.schema)
                                   ELSE SchemaOk(s.schema, {})>> })

TableClauses(rows, next, ts, t, seg) ==
    LET S == Named(ts, { rows[i].id : i \in DOMAIN rows })
        of(id) == CHOOSE i \in DOMAIN ts : ts[i].id = id
        known == { i \in DOMAIN rows : \E k \in DOMAIN ts : ts[k].id = rows[i].id }
    IN Failing({
         <<"collected-active", /\ IsActive(ts, t, seg, S)
                               /\ Len(rows) = Cardinality(S)
                               /\ known = DOMAIN rows>>,
         <<"collected-rows", \A i \in known : of(rows[i].id) \in Spans(ts, t, seg) =>
                                rows[i] = TableRow(ts[of(rows[i].id)], t)>>,
         <<"collected-next", IF seg
              THEN /\ Len(next) = Len(rows)
                   /\ \A i \in known : (i \in DOMAIN next /\
                        of(rows[i].id) \in Spans(ts, t, seg)) =>
                           next[i] = TableRow(ts[of(rows[i].id)], t + 1)
              ELSE next = <<>>>> })

\* Frame data of one kind: the active ones of a list, in both frames.
FrameClauses(name, a, b, ts, t) ==
    LET ids == [i \in DOMAIN a.rows |-> a.rows[i].id]
        S == Named(ts, Range(ids))
        at(i) == ts[CHOOSE k \in DOMAIN ts : ts[k].id = i]
        good == S \subseteq Spans(ts, t, TRUE) /\
                \A k \in DOMAIN ids : \E j \in DOMAIN ts : ts[j].id = ids[k]
    IN Failing({
         <<name \o "-times", a.t = t /\ b.t = t + 1>>,
         <<name \o "-active", good /\ IsActive(ts, t, TRUE, S) /\ Once(ids)>>,
         <<name \o "-values", good =>
              /\ a.rows = Snapshot([k \in DOMAIN ids |-> at(ids[k])], t)
              /\ b.rows = Snapshot([k \in DOMAIN ids |-> at(ids[k])], t + 1)>>,
         <<name \o "-schema", a.rows # <<>> => SchemaOk(a.schema, {}) /\ SchemaOk(b.schema, {})>> })

\* Trajectories may miss points in their span, where they are not active.
Whole(ts, t, seg) == SelectSeq(ts, LAMBDA x : t \notin Set(x.holes) /\
                                             (seg => t + 1 \notin Set(x.holes)))
Quiet == UNCHANGED svars

Apply ==
    CASE Ev.op = "given" -> Given(Ev.trajs) /\ Advance({})
      [] Ev.op = "active" ->
            Quiet /\ Advance(Failing({
                <<"active", IsActive(trajs, Ev.t, Ev.seg, Set(O.ixs)) /\ Once(O.ixs)>> }))
      [] Ev.op = "snapshot" ->
            Quiet /\ Advance(SnapClauses(O, [k \in DOMAIN Ev.ixs |-> trajs[Ev.ixs[k]]], Ev.t, Ev.mixed))
      [] Ev.op = "collect" ->
            Quiet /\ Advance(TableClauses(O.rows, O.next, Whole(trajs, Ev.t, Ev.seg), Ev.t, Ev.seg))
      [] Ev.op = "frame_data" ->
            Quiet /\ Advance(
                FrameClauses("particles", O.p, O.pn, trajs, Ev.t)
                \cup FrameClauses("tracers", O.q, O.qn, Ev.tracers, Ev.t)
                \cup Failing({ <<"particle", O.part = Ev.part>> }))
      [] Ev.op = "pairs" ->
            Quiet /\ Advance(PairClauses(Ev.sec, O.pairs))
      [] Ev.op = "unique" ->
            Quiet /\ Advance(Failing({
                <<"unique-rows", /\ Set(O.ixs) \subseteq DOMAIN Ev.rows /\ Once(O.ixs)
                                 /\ Once([k \in DOMAIN O.ixs |-> Ev.rows[O.ixs[k]]])
                                 /\ { Ev.rows[i] : i \in Set(O.ixs) } = Set(Ev.rows)>> }))

Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
