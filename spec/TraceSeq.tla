------------------------------ MODULE TraceSeq ------------------------------
(* Checks behaviours of real sequences against Seq.                          *)
EXTENDS Seq, TraceLib

tvars == <<qvars, tr, l, bad>>
O == Ev.obs

Init == /\ TraceInit
        /\ parts = {} /\ trcs = {} /\ rng = <<0, 0>> /\ minlen = 0
        /\ psel = {} /\ tsel = {} /\ its = <<>>

Set(s) == Range(s)
Exactly(shown, rs) == Len(shown) = Cardinality(rs) /\ Range(shown) = rs
IdsOf(s) == [i \in DOMAIN s |-> s[i].id]

ItemClauses(o, e) ==
    Failing({
      <<"frame-number", o.p.t = e.t /\ o.q.t = e.t>>,
      <<"next-number", o.pn.t = e.t + 1 /\ o.qn.t = e.t + 1>>,
      <<"particles", Exactly(o.p.rows, e.p)>>,
      <<"next-particles", Exactly(o.pn.rows, e.pn)>>,
      <<"tracers", Exactly(o.q.rows, e.q)>>,
      <<"next-tracers", Exactly(o.qn.rows, e.qn)>>,
      <<"row-alignment", IdsOf(o.p.rows) = IdsOf(o.pn.rows) /\
                         IdsOf(o.q.rows) = IdsOf(o.qn.rows)>> })

\* A list of trajectories that the sequence shows.
TrajClauses(shown, want) ==
    Failing({ <<"trajectories", Exactly(shown, { [id |-> c.id, t0 |-> c.t0, pts |-> c.pts] : c \in want })>> })

\* The function of a mapping is called with the frames, the results before it,
\* and the extra arguments; `ret` is what it returns.
ResOf(ret) == [i \in { x.id : x \in Set(ret) } |-> (CHOOSE x \in Set(ret) : x.id = i).v]
HistClauses(h, seen) ==
    LET acc == its[h].acc IN
    Failing({ <<"history", /\ { x.id : x \in Set(seen) } = DOMAIN acc
                           /\ \A x \in Set(seen) : x.id \in DOMAIN acc => x.vals = acc[x.id]>> })
ResultClauses(h, res) ==
    LET acc == its[h].acc IN
    Failing({ <<"mapped-trajectories", { x.id : x \in Set(res) } = DOMAIN acc
                                       /\ Len(res) = Cardinality(DOMAIN acc)>>,
              <<"mapped-results", \A x \in Set(res) : x.id \in DOMAIN acc =>
                                     x.vals = acc[x.id]>> })

Apply ==
    CASE Ev.op = "make" ->
            Make(Set(Ev.p), Set(Ev.q), Ev.rng, Ev.minlen) /\ Advance({})
      [] Ev.op = "select" -> Select(Ev.which, Set(Ev.ids)) /\ Advance({})
      [] Ev.op = "start" -> Start(Ev.h, Ev.lo, Ev.hi) /\ Advance({})
      [] Ev.op = "next" ->
            IF Ev.h \notin DOMAIN its THEN
               /\ Again(Ev.h)
               /\ Advance(Failing({ <<"end-stays", O.kind = "stop">> }))
            ELSE IF AtEnd(Ev.h) THEN
               /\ Finish(Ev.h)
               /\ Advance(Failing({ <<"no-stop", O.kind = "stop">> }))
            ELSE IF O.kind = "stop" THEN Finish(Ev.h) /\ Advance({ "early-stop" })
            ELSE Step(Ev.h) /\ Advance(ItemClauses(O, Item(its[Ev.h].next)))
      [] Ev.op = "abandon" -> Finish(Ev.h) /\ Advance({})
      [] Ev.op = "start_map" -> StartMap(Ev.h, Ev.lo, Ev.hi) /\ Advance({})
      [] Ev.op = "call" ->
            IF AtEnd(Ev.h) THEN UNCHANGED qvars /\ Advance({ "called-too-often" })
            ELSE /\ Call(Ev.h, ResOf(Ev.ret))
                 /\ Advance(ItemClauses(O, Item(its[Ev.h].next))
                      \cup (IF Ev.history THEN HistClauses(Ev.h, O.seen) ELSE {})
                      \cup Failing({ <<"arguments", O.args = Ev.args>>,
                                     <<"sequence-argument", O.self>> }))
      [] Ev.op = "end_map" ->
            /\ Finish(Ev.h)
            /\ Advance(IF Ev.failed THEN {}
                       ELSE Failing({ <<"called-too-seldom", AtEnd(Ev.h)>> })
                            \cup ResultClauses(Ev.h, O.res))
      [] Ev.op = "ask" ->
            /\ UNCHANGED qvars
            /\ Advance(Failing({
                 <<"range", O.rng = rng>>,
                 <<"covered", O.covered = Covered>> })
                 \cup TrajClauses(O.p, Parts) \cup TrajClauses(O.q, Trcs))

Quiet == UNCHANGED qvars
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
