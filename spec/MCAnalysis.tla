----------------------------- MODULE MCAnalysis -----------------------------
EXTENDS Analysis, TLC
CONSTANTS MaxT, MaxId

VARIABLE begun
mcvars == <<avars, begun>>
Tables == { { P!Row(c[1], c[2], <<>>) : c \in S } :
              S \in (SUBSET ((1..MaxId) \X (1..MaxT))) \ {{}} }
Opts == { None } \cup { Some(x) : x \in 1..(MaxT + 1) }

Init == /\ prow = {} /\ trow = {} /\ lo = None /\ hi = None /\ nan = 0
        /\ at = <<>> /\ res = {} /\ begun = FALSE

Start == /\ ~begun /\ begun' = TRUE
         /\ \E p \in Tables, l0, h0 \in Opts, n \in 0..2 : Begin(p, p, l0, h0, n)
Go == /\ begun /\ UNCHANGED begun
      /\ \E k \in 1..nan :
            Analyse(k, { [id |-> r.id, c |-> << <<k, r.id, at[k]>> >>]
                         : r \in Shown(k).p })
Next == Start \/ Go
Spec == Init /\ [][Next]_mcvars
Checked == begun => (OneRowEach /\ JoinIsTrajectory)
\* Each row carries its own answers.
OwnAnswers == (begun /\ Finished) =>
    \A a \in Table : a.c = [k \in 1..nan |-> <<k, a.id, a.t>>]
=============================================================================
