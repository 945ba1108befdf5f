------------------------------- MODULE MCDual -------------------------------
EXTENDS Dual, TLC, Json, Randomization
CONSTANTS MaxT, NTracers, Record, MaxLen

VARIABLES hist, made
mcvars == <<dvars, hist, made>>

Tables(n) == { { P!Row(c[1], c[2], <<>>) : c \in S } :
              S \in (SUBSET ((1..n) \X (1..MaxT))) \ {{}} }
Opts == { None } \cup { Some(x) : x \in 1..(MaxT + 1) }
\* Behaviours for replay have few ranges with nothing in them.
Ranges == { <<a, b>> : a \in Opts, b \in Opts } \
          IF Record THEN { r \in Opts \X Opts : Closed(r) /\ Get(r[1]) >= Get(r[2]) - 1
                                               /\ Get(r[1]) # 2 }
          ELSE {}

Do(h) == hist' = IF Record THEN Append(hist, h) ELSE hist
Init == /\ prow = {} /\ trow = {} /\ base = <<None, None>>
        /\ cur = <<None, None>> /\ it = None /\ obs = <<>>
        /\ hist = <<>> /\ made = FALSE

RowList(rs) == [k \in 1..Cardinality(rs) |->
    CHOOSE r \in rs : Cardinality({ s \in rs : s.t * 100 + s.id < r.t * 100 + r.id }) = k - 1]

Use ==
    /\ made /\ UNCHANGED made
    /\ \/ \E kind \in {"frame", "seg"} :
            \/ Start(kind, None) /\ Coordinated(base)
               /\ Do([op |-> "start", kind |-> kind, tmp |-> <<>>])
            \/ \E r \in Ranges : /\ Coordinated(r)
                                 /\ Start(kind, Some(r))
                                 /\ Do([op |-> "start", kind |-> kind, tmp |-> <<r>>])
       \/ Item /\ Do([op |-> "next"])
       \/ AtEnd /\ End /\ Do([op |-> "next"])
       \/ ~AtEnd /\ End /\ Do([op |-> "abandon"])

Create ==
    /\ ~made /\ made' = TRUE
    /\ \E p \in (IF Record THEN RandomSubset(3, Tables(2)) ELSE Tables(2)),
          t \in (IF Record THEN RandomSubset(3, Tables(2)) ELSE Tables(NTracers)) :
         \E r \in Ranges :
          /\ Closed(r) \/ SameExtent(p, t)
          /\ Make(p, t, r)
          /\ Do([op |-> "make", p |-> RowList(p), t |-> RowList(t), rng |-> r])

Finish == /\ Record /\ Len(hist) = MaxLen
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ hist' = Append(hist, [op |-> "end"])
          /\ UNCHANGED <<dvars, made>>

Next == ((Record => Len(hist) < MaxLen) /\ (Create \/ Use)) \/ Finish
Spec == Init /\ [][Next]_mcvars
=============================================================================
