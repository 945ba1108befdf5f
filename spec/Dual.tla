-------------------------------- MODULE Dual --------------------------------
(* Two coordinated streams, of particles and of tracers, seen through one    *)
(* range.  An iteration may bring a range of its own, which is in force while*)
(* it is open; whatever way it ends, the scene's own range is back then.     *)
(* Several iterations may follow each other, one at a time.                  *)
EXTENDS Util

VARIABLES prow, trow,   \* rows of the particles and the tracers
          base,         \* the range the dual scene was made with, <<lo, hi>>
          cur,          \* the range in force in both streams
          it,           \* the open iteration, optional
          obs

dvars == <<prow, trow, base, cur, it, obs>>

P == INSTANCE Store WITH rows <- prow, tags <- {}, lo <- cur[1], hi <- cur[2],
                         iters <- <<>>
T == INSTANCE Store WITH rows <- trow, tags <- {}, lo <- cur[1], hi <- cur[2],
                         iters <- <<>>

Closed(rng) == ~IsNone(rng[1]) /\ ~IsNone(rng[2])

\* Streams may differ in extent only where the range says where to begin and
\* end.
SameExtent(p, t) == /\ p # {} /\ t # {}
                    /\ SetMin(P!Times(p)) = SetMin(T!Times(t))
                    /\ SetMax(P!Times(p)) = SetMax(T!Times(t))
Coordinated(rng) == Closed(rng) \/ SameExtent(prow, trow)

Make(p, t, rng) ==
    /\ prow' = p /\ trow' = t
    /\ base' = rng /\ cur' = rng
    /\ it' = None /\ obs' = <<>>

\* tmp is the optional range of the iteration. The range counts from the moment
\* that the first item is asked for.
First(rng) == IF IsNone(rng[1]) THEN SetMin(P!Times(prow)) ELSE Get(rng[1])
After(rng) == IF IsNone(rng[2]) THEN SetMax(P!Times(prow)) + 1 ELSE Get(rng[2])

Start(kind, tmp) ==
    LET rng == IF IsNone(tmp) THEN base ELSE Get(tmp) IN
    /\ IsNone(it)
    /\ it' = Some([kind |-> kind, next |-> First(rng),
                   stop |-> After(rng) - (IF kind = "seg" THEN 1 ELSE 0),
                   tmp |-> tmp, begun |-> FALSE])
    /\ obs' = <<>>
    /\ UNCHANGED <<prow, trow, base, cur>>

InForce(i) == IF IsNone(i.tmp) THEN cur ELSE Get(i.tmp)

Item ==
    /\ ~IsNone(it) /\ Get(it).next < Get(it).stop
    /\ LET i == Get(it)
           t == i.next
       IN /\ obs' = IF i.kind = "frame"
                    THEN [kind |-> "frame", t |-> t, p |-> P!FrameRows(t),
                          q |-> T!FrameRows(t)]
                    ELSE [kind |-> "seg", t |-> t, p |-> P!SegRows(t),
                          pn |-> P!SegNext(t), q |-> T!SegRows(t),
                          qn |-> T!SegNext(t)]
          /\ it' = Some([i EXCEPT !.next = t + 1, !.begun = TRUE])
          /\ cur' = InForce(i)
    /\ UNCHANGED <<prow, trow, base>>

\* The end by itself, and being abandoned before it.
End == /\ ~IsNone(it)
       /\ it' = None /\ cur' = base
       /\ obs' = <<>>
       /\ UNCHANGED <<prow, trow, base>>
AtEnd == ~IsNone(it) /\ Get(it).next >= Get(it).stop

(* ------------------------------------------------------------- properties *)
RangeIsBack == (IsNone(it) \/ ~Get(it).begun) => cur = base

OnlyTemporary == cur = base \/ (~IsNone(it) /\ cur = InForce(Get(it)))

InStep == (obs # <<>> /\ ~IsNone(it)) =>
            /\ \A r \in obs.p \cup obs.q : r.t = obs.t
            /\ obs.kind = "seg" =>
                  /\ \A r \in obs.pn \cup obs.qn : r.t = obs.t + 1
                  /\ P!Ids(obs.p) = P!Ids(obs.pn)
                  /\ T!Ids(obs.q) = T!Ids(obs.qn)
            \* nothing outside the range in force.
            /\ obs.p \subseteq P!InRange /\ obs.q \subseteq T!InRange
            /\ obs.kind = "seg" => obs.pn \subseteq P!InRange
=============================================================================
