------------------------------ MODULE TraceLib ------------------------------
(* Common part of the trace specifications: behaviours recorded from the     *)
(* real code, as a sequence of traces, each of which has a sequence of       *)
(* events `ev`.  An event has at least `op` (which action) and `err` ("" or  *)
(* the exception that the code raised).  The trace specification that        *)
(* EXTENDS this module says how an event acts on the specification's state   *)
(* and which named clauses its observation violates.                         *)
EXTENDS Util, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr,     \* which of the traces is followed
          l,      \* the next event in it
          bad     \* the violated clauses so far: {<<clause, event number>>}

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}

Evs == Traces[tr].ev
Ev == Evs[l]
More == l <= Len(Evs)

\* An operation that is within its documented use raised an exception: there
\* is no point in following the trace any further.
Raised == /\ More
          /\ Ev.err # ""
          /\ bad' = bad \cup { <<"raised", l>> }
          /\ l' = Len(Evs) + 1
          /\ UNCHANGED tr

\* No operation changes the objects that it is given: `changed` has the names
\* of those whose contents are not what they were before.
GivenClauses == IF "changed" \in DOMAIN Ev /\ Len(Ev.changed) > 0
                THEN { "given-unchanged" } ELSE {}

Advance(clauses) == /\ l' = l + 1
                    /\ bad' = bad \cup { <<c, l>> : c \in clauses \cup GivenClauses }
                    /\ UNCHANGED tr

Verdict == /\ l = Len(Evs) + 1
           /\ PrintT("VERDICT " \o ToString(tr) \o " " \o ToString(bad))
           /\ l' = l + 1
           /\ UNCHANGED <<tr, bad>>

\* clauses whose condition does not hold.
Failing(checks) == { c[1] : c \in { x \in checks : ~x[2] } }
=============================================================================
