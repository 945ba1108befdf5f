----------------------------- MODULE TraceDual ------------------------------
(* Checks behaviours of real dual scenes against Dual.                       *)
EXTENDS Dual, TraceLib

tvars == <<dvars, tr, l, bad>>
O == Ev.obs

Init == /\ TraceInit
        /\ prow = {} /\ trow = {} /\ base = <<None, None>>
        /\ cur = <<None, None>> /\ it = None /\ obs = <<>>

Exactly(shown, rs) == Len(shown) = Cardinality(rs) /\ Range(shown) = rs

\* One stream's part of an item.
SnapClauses(name, s, t, rs) ==
    Failing({ <<name \o "-time", s.t = t>>,
              <<name \o "-rows", Exactly(s.rows, rs)>> })
Aligned(a, b) == /\ Len(a.rows) = Len(b.rows)
                 /\ \A i \in DOMAIN a.rows : a.rows[i].id = b.rows[i].id

ItemClauses(o, e) ==
    IF o.kind # e.kind THEN { "item-kind" }
    ELSE SnapClauses("particles", o.p, e.t, e.p)
         \cup SnapClauses("tracers", o.q, e.t, e.q)
         \cup IF e.kind = "frame" THEN {}
              ELSE SnapClauses("next-particles", o.pn, e.t + 1, e.pn)
                   \cup SnapClauses("next-tracers", o.qn, e.t + 1, e.qn)
                   \cup Failing({ <<"row-alignment",
                          Aligned(o.p, o.pn) /\ Aligned(o.q, o.qn)>> })

\* Each stream on its own shows the range in force. Its default limits are its
\* own first and last frame.
RangeOf(rs, rng) == <<IF IsNone(rng[1]) THEN SetMin({ r.t : r \in rs }) ELSE Get(rng[1]),
                      IF IsNone(rng[2]) THEN SetMax({ r.t : r \in rs }) + 1 ELSE Get(rng[2])>>

Unch == UNCHANGED <<prow, trow, base, cur, it>>

Apply ==
    CASE Ev.op = "make" ->
            Make(Range(Ev.p), Range(Ev.q), Ev.rng) /\ Advance({})
      [] Ev.op = "start" -> Start(Ev.kind, Ev.tmp) /\ Advance({})
      [] Ev.op = "next" ->
            IF AtEnd THEN
               End /\ Advance(Failing({ <<"no-stop", O.kind = "stop">> }))
            ELSE IF O.kind = "stop" THEN End /\ Advance({ "early-stop" })
            ELSE Item /\ Advance(ItemClauses(O, obs'))
      [] Ev.op = "abandon" -> End /\ Advance({})
      [] Ev.op = "ask" ->
            \* asked when no iteration is open.
            /\ obs' = <<>> /\ Unch
            /\ Advance(Failing({
                 <<"particles-range", O.p = RangeOf(prow, cur)>>,
                 <<"tracers-range", O.q = RangeOf(trow, cur)>>,
                 <<"particles-visible", Exactly(O.prows,
                      { [id |-> r.id, t |-> r.t] : r \in P!InRange })>>,
                 <<"tracers-visible", Exactly(O.qrows,
                      { [id |-> r.id, t |-> r.t] : r \in T!InRange })>>,
                 <<"own-range", O.own = cur>> }))

Quiet == UNCHANGED <<prow, trow, base, cur, it, obs>>
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
