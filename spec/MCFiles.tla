------------------------------ MODULE MCFiles -------------------------------
EXTENDS Files, Json, Randomization
CONSTANTS NFiles, MaxThings, Record, MaxLen

VARIABLES hist, last
mcvars == <<fvars, hist, last>>

Kinds == {"trajs", "frames", "analysis"}
Thing(k) == { <<k, t, k>> : t \in 1..2 }
Things == { [k \in 1..n |-> Thing(k)] : n \in 1..MaxThings }

Do(h) == hist' = IF Record THEN Append(hist, h) ELSE hist
Init == /\ content = [x \in {} |-> Nothing] /\ using = {} /\ op = NoOp /\ obs = Ended("start", {})
        /\ hist = <<>> /\ last = [x \in {} |-> {}]

GoOn == (Take \/ Fail \/ Done) /\ UNCHANGED <<hist, last>>

Step ==
    \/ \E kind \in Kinds, f \in 1..NFiles, th \in Things : \E fail \in 0..(Len(th) + 1) :
         /\ Begin(kind, f, th, fail)
         /\ Do([op |-> "write", kind |-> kind, f |-> f, n |-> Len(th), fail |-> fail])
         \* what is to be there, if it is done
         /\ last' = [x \in DOMAIN last \cup {f} |->
                IF x # f THEN last[x] ELSE IF fail <= Len(th) THEN {} ELSE
                UNION { th[k] : k \in DOMAIN th }]
    \/ GoOn
    \/ \E f \in 1..NFiles : /\ Read(f) /\ UNCHANGED last
                            /\ Do([op |-> "read", f |-> f, n |-> 0])
    \/ Record /\ \E f \in 1..NFiles, n \in 1..2 :
            /\ Read(f) /\ UNCHANGED last
            /\ Do([op |-> "read", f |-> f, n |-> n])

\* Whatever failed before, the last writing is what is there.
Redone == Idle => \A f \in DOMAIN last : Contents(f).rows = last[f]

\* Every operation ends.
Ends == (~Idle) ~> Idle

Finish == /\ Record /\ Len(hist) = MaxLen /\ Idle
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ hist' = Append(hist, [op |-> "end"])
          /\ UNCHANGED <<fvars, last>>

Next == ((Record => Len(hist) < MaxLen \/ ~Idle) /\ Step) \/ Finish
Spec == Init /\ [][Next]_mcvars /\ WF_mcvars(GoOn)
=============================================================================
