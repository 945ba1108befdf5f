----------------------------- MODULE TraceFiles -----------------------------
(* Checks real savings, analyses and readings, some of which fail, against   *)
(* Files.  File 0 has the particles that are analysed.                       *)
EXTENDS Files, TraceLib

tvars == <<fvars, tr, l, bad>>
O == Ev.obs

Init == /\ TraceInit
        /\ content = [x \in {} |-> Nothing] /\ using = {} /\ op = NoOp
        /\ obs = Ended("start", {})

\* The failure that the one who provides the data has is passed on as it is;
\* what can't be saved is an error of some kind.
EndClauses == Failing({
    <<"not-done", Ev.fail = "" => O.how = "done">>,
    <<"failure-passed-on", Ev.fail = "source" => O.how = "planned">>,
    <<"failure-hidden", Ev.fail = "item" => O.how \in {"failed", "planned"}>> })

ReadClauses(rows) ==
    IF O.how = "error" THEN { "not-readable" }
    ELSE LET shown == Range(O.rows) IN Failing({
        <<"rows-repeated", Len(O.rows) = Cardinality(shown)>>,
        <<"rows", IF Ev.n = 0 THEN shown = rows ELSE shown \subseteq rows>> })

Apply ==
    CASE Ev.op = "write" ->
            Write(Ev.kind, Ev.f, Range(Ev.rows), Ev.fail # "") /\ Advance(EndClauses)
      [] Ev.op = "analysis" ->
            /\ Write("analysis", Ev.f, Analysed(Contents(0).rows, Ev.rng[1], Ev.rng[2]),
                Ev.fail # "")
            /\ Advance(EndClauses)
      [] Ev.op = "read" ->
            /\ Read(Ev.f)
            /\ Advance(IF Contents(Ev.f).kind \in {"none", "broken"} THEN {}
                       ELSE ReadClauses(obs'.rows))

Quiet == UNCHANGED fvars
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
