------------------------------ MODULE MCStore -------------------------------
(* Bounded model of Store: every small table, every range, every interleaving*)
(* of up to two iterations.  With Record it also remembers the operations, so*)
(* that TLC's simulation emits behaviours to be replayed on the real code.   *)
EXTENDS Store, TLC, Json, Randomization

CONSTANTS MaxId, MaxT, MaxV, Handles, MaxTrim, Record, MaxLen

VARIABLES hist, opened
mcvars == <<rows, tags, lo, hi, iters, obs, hist, opened>>

Ts == 1..MaxT
IdS == 1..MaxId

\* All tables with at most one row for a particle in a frame.
Tables == { { Row(c[1], c[2], <<<<f[c]>>>>) : c \in { d \in IdS \X Ts : f[d] > 0 } }
            : f \in [IdS \X Ts -> 0..MaxV] } \ { {} }

Opts == { None } \cup { Some(x) : x \in 0..(MaxT + 1) }

TrajOf(rs, id) ==
    LET ts == { r.t : r \in { q \in rs : q.id = id } }
        at(n) == CHOOSE x \in ts : Cardinality({ y \in ts : y < x }) = n - 1
    IN [id |-> id,
        pts |-> [n \in 1..Cardinality(ts) |->
                 [t |-> at(n),
                  v |-> (CHOOSE r \in rs : r.id = id /\ r.t = at(n)).v]]]

TrajsOf(rs) == LET n == Cardinality(Ids(rs))
                   at(k) == CHOOSE x \in Ids(rs) :
                              Cardinality({ y \in Ids(rs) : y < x }) = k - 1
               IN [k \in 1..n |-> TrajOf(rs, at(k))]

FramesOf(rs) == [t \in 1..MaxT |->
                   LET q == { r \in rs : r.t = t }
                       at(k) == CHOOSE r \in q :
                                  Cardinality({ s \in q : s.id < r.id }) = k - 1
                   IN [t |-> t, pts |-> [k \in 1..Cardinality(q) |->
                                          [id |-> at(k).id, v |-> at(k).v]]]]

Do(h) == /\ hist' = IF Record THEN Append(hist, h) ELSE hist
Emit == IF Record THEN Len(hist) < MaxLen ELSE TRUE

Init == /\ rows = {} /\ tags = {} /\ lo = None /\ hi = None
        /\ iters = <<>> /\ obs = <<>> /\ hist = <<>> /\ opened = FALSE

RowList(rs) == [k \in 1..Cardinality(rs) |->
    CHOOSE r \in rs : Cardinality({ s \in rs : s.t * 1000 + s.id < r.t * 1000 + r.id }) = k - 1]

Save ==
    /\ ~opened /\ opened' = TRUE
    /\ \E rs \in (IF Record THEN RandomSubset(2, Tables) ELSE Tables) :
          \/ \E trim \in 0..MaxTrim :
                /\ KeptTrajs(TrajsOf(rs), trim) # {}
                /\ SaveTrajs(TrajsOf(rs), trim)
                /\ Do([op |-> "save_trajs", trim |-> trim, rows |-> RowList(rs)])
          \/ SaveFrames(FramesOf(rs)) /\ Do([op |-> "save_frames", rows |-> RowList(rs)])

Conds == { [key |-> 1, min |-> a, max |-> b, inv |-> i] :
             a \in 1..MaxV, b \in 1..(MaxV + 1), i \in BOOLEAN }

Use ==
    /\ opened /\ UNCHANGED opened
    /\ \/ \E a, b \in Opts : SetRange(a, b) /\ Do([op |-> "set_range", lo |-> a, hi |-> b])
       \/ \E h \in Handles :
             /\ h \notin DOMAIN iters
             /\ \/ StartFrames(h) /\ Do([op |-> "start", kind |-> "frame", h |-> h])
                \/ StartSegs(h) /\ Do([op |-> "start", kind |-> "seg", h |-> h])
                \/ StartTrajs(h) /\ Do([op |-> "start", kind |-> "traj", h |-> h])
       \/ \E h \in Handles :
             \/ NextFrame(h) /\ Do([op |-> "next", h |-> h])
             \/ NextSeg(h) /\ Do([op |-> "next", h |-> h])
             \/ \E id \in IdS : NextTraj(h, id) /\ Do([op |-> "next", h |-> h])
       \/ Record /\ \E h \in Handles : Stop(h) /\ Do([op |-> "next", h |-> h])
       \/ Record /\ \E id \in Ids(rows) : TrajById(id) /\ Do([op |-> "traj_by_id", id |-> id])
       \/ Record /\ \E t \in Ts : FrameByTime(t) /\ Do([op |-> "frame_by_time", t |-> t])
       \/ Record /\ \E c \in Conds : Collect(<<c>>) /\ Do([op |-> "collect", conds |-> <<c>>])
       \/ Record /\ AskRange /\ Do([op |-> "ask_range"])

\* For simulation: print each behaviour when it has the wanted length.
Finish == /\ Record /\ Len(hist) = MaxLen
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ hist' = Append(hist, [op |-> "end"])
          /\ UNCHANGED <<vars, opened>>

Next == (Emit /\ (Save \/ Use)) \/ Finish

Spec == Init /\ [][Next]_mcvars

\* Saving loses and invents nothing, whichever way round the data is given; and
\* trimming takes the same number of points off each end of each trajectory.
SavingFaithful ==
    ~opened =>
    \A rs \in Tables :
        /\ RowsOfTrajs(TrajsOf(rs), 0) = rs
        /\ RowsOfFrames(FramesOf(rs)) = rs
        /\ \A id \in Ids(rs), trim \in 0..MaxTrim :
              LET got == { r \in RowsOfTrajs(TrajsOf(rs), trim) : r.id = id }
                  all == { r \in rs : r.id = id }
                  rank(r) == Cardinality({ q \in all : q.t < r.t })
              IN got = { r \in all : /\ rank(r) >= trim
                                     /\ rank(r) < Cardinality(all) - trim }

\* A selection and its inverse are complementary.
Complement ==
    \A c \in Conds :
        LET d == [c EXCEPT !.inv = ~c.inv]
        IN /\ Selected(<<c>>) \cup Selected(<<d>>) = InRange
           /\ Selected(<<c>>) \cap Selected(<<d>>) = {}
=============================================================================
