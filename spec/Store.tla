------------------------------- MODULE Store --------------------------------
(* A particle table and the scene that reads it.                             *)
(*                                                                           *)
(* A row is the state of one particle (trajectory `id`) at one frame `t`;    *)
(* `v` is the sequence of its property values, each a tuple of components.   *)
(* A scene shows the rows of the table inside its frame range, in two ways   *)
(* that have to agree: frame by frame, and trajectory by trajectory.  It may *)
(* have several iterations open at once; only its user's setting of another  *)
(* range while an iteration is open is excluded.                             *)
EXTENDS Util

VARIABLES rows,    \* set of [id, t, v]
          tags,    \* trajectory tags, set of [id, first, last]
          lo, hi,  \* the limits set on the scene, optional; lo <= t < hi
          iters,   \* handle -> open iteration
          obs      \* what the last operation answered

vars == <<rows, tags, lo, hi, iters, obs>>

Row(id, t, v) == [id |-> id, t |-> t, v |-> v]

(* ---------------------------------------------------------------- saving *)
\* A trajectory here is [id, pts], pts a sequence of [t, v] by time. A frame is
\* [t, pts], pts a sequence of [id, v].
Trimmed(tj, trim) == SubSeq(tj.pts, 1 + trim, Len(tj.pts) - trim)

KeptTrajs(trajs, trim) ==
    { i \in DOMAIN trajs : Len(trajs[i].pts) > 2 * trim }

RowsOfTrajs(trajs, trim) ==
    UNION { { Row(trajs[i].id, p.t, p.v) : p \in Range(Trimmed(trajs[i], trim)) }
            : i \in KeptTrajs(trajs, trim) }

TagsOfTrajs(trajs, trim) ==
    { LET pts == Trimmed(trajs[i], trim)
      IN [id |-> trajs[i].id, first |-> pts[1].t, last |-> pts[Len(pts)].t]
      : i \in KeptTrajs(trajs, trim) }

RowsOfFrames(frames) ==
    UNION { { Row(p.id, frames[i].t, p.v) : p \in Range(frames[i].pts) }
            : i \in DOMAIN frames }

TagsOfRows(rs) ==
    { LET ts == { r.t : r \in { q \in rs : q.id = i } }
      IN [id |-> i, first |-> SetMin(ts), last |-> SetMax(ts)]
      : i \in { r.id : r \in rs } }

(* ------------------------------------------------------------ the scene  *)
Times(rs) == { r.t : r \in rs }
Ids(rs) == { r.id : r \in rs }

First == IF IsNone(lo) THEN SetMin(Times(rows)) ELSE Get(lo)
After == IF IsNone(hi) THEN SetMax(Times(rows)) + 1 ELSE Get(hi)

Visible(r) == /\ IsNone(lo) \/ Get(lo) <= r.t
              /\ IsNone(hi) \/ r.t < Get(hi)
InRange == { r \in rows : Visible(r) }

FrameRows(t) == { r \in rows : r.t = t }
TrajRows(id) == { r \in InRange : r.id = id }

\* Segments: of each two successive frames, the particles that are in both.
Continuing(t) == Ids(FrameRows(t)) \cap Ids(FrameRows(t + 1))
SegRows(t) == { r \in FrameRows(t) : r.id \in Continuing(t) }
SegNext(t) == { r \in FrameRows(t + 1) : r.id \in Continuing(t) }

\* Selection. A condition is [key, comp, min, max, inv] on one property.
\* Keys are numbered, with 0 for the trajectory ID and -1 for the time.
Value(r, key) == IF key = 0 THEN r.id
                 ELSE IF key = -1 THEN r.t
                 ELSE r.v[key][1]
Satisfies(x, c) == IF c.inv THEN x < c.min \/ x >= c.max
                   ELSE c.min <= x /\ x < c.max
Selected(conds) ==
    { r \in InRange : \A c \in Range(conds) : Satisfies(Value(r, c.key), c) }

BoxMin(rs, k, n) == [i \in 1..n |-> SetMin({ r.v[k][i] : r \in rs })]
BoxMax(rs, k, n) == [i \in 1..n |-> SetMax({ r.v[k][i] : r \in rs })]

(* ---------------------------------------------------------------- actions *)
Unch == UNCHANGED <<rows, tags, lo, hi, iters>>

\* Saving clobbers the file; then a scene is opened on it.
SaveTrajs(trajs, trim) ==
    /\ rows' = RowsOfTrajs(trajs, trim)
    /\ tags' = TagsOfTrajs(trajs, trim)
    /\ lo' = None /\ hi' = None /\ iters' = <<>> /\ obs' = <<>>

SaveFrames(frames) ==
    /\ rows' = RowsOfFrames(frames)
    /\ tags' = TagsOfRows(RowsOfFrames(frames))
    /\ lo' = None /\ hi' = None /\ iters' = <<>> /\ obs' = <<>>

\* A table written by something else, with or without a tags table.
Given(rs) ==
    /\ rows' = rs /\ tags' = TagsOfRows(rs)
    /\ lo' = None /\ hi' = None /\ iters' = <<>> /\ obs' = <<>>

Done(it) == IF it.kind = "traj" THEN it.left = {} ELSE it.next >= it.stop
Idle == \A h \in DOMAIN iters : Done(iters[h])

ChangeRange(l0, h0) ==
    /\ lo' = l0 /\ hi' = h0
    /\ iters' = <<>> /\ obs' = <<>>
    /\ UNCHANGED <<rows, tags>>

SetRange(l0, h0) == Idle /\ ChangeRange(l0, h0)

With(h, it) == [x \in DOMAIN iters \cup {h} |-> IF x = h THEN it ELSE iters[x]]

StartFrames(h) ==
    /\ iters' = With(h, [kind |-> "frame", next |-> First, stop |-> After,
                         left |-> {}, out |-> {}, n |-> 0])
    /\ obs' = <<>>
    /\ UNCHANGED <<rows, tags, lo, hi>>

StartSegs(h) ==
    /\ iters' = With(h, [kind |-> "seg", next |-> First, stop |-> After - 1,
                         left |-> {}, out |-> {}, n |-> 0])
    /\ obs' = <<>>
    /\ UNCHANGED <<rows, tags, lo, hi>>

StartTrajs(h) ==
    /\ iters' = With(h, [kind |-> "traj", next |-> 0, stop |-> 0,
                         left |-> Ids(rows), out |-> {}, n |-> 0])
    /\ obs' = <<>>
    /\ UNCHANGED <<rows, tags, lo, hi>>

\* One step of an iteration; it ends by answering "stop".
Stop(h) == /\ h \in DOMAIN iters /\ Done(iters[h])
           /\ obs' = [kind |-> "stop"]
           /\ Unch

NextFrame(h) ==
    /\ h \in DOMAIN iters /\ iters[h].kind = "frame" /\ ~Done(iters[h])
    /\ LET t == iters[h].next
           rs == FrameRows(t)
       IN /\ obs' = [kind |-> "frame", t |-> t, rows |-> rs]
          /\ iters' = [iters EXCEPT ![h].next = t + 1,
                                    ![h].out = @ \cup rs,
                                    ![h].n = @ + Cardinality(rs)]
    /\ UNCHANGED <<rows, tags, lo, hi>>

NextSeg(h) ==
    /\ h \in DOMAIN iters /\ iters[h].kind = "seg" /\ ~Done(iters[h])
    /\ LET t == iters[h].next
       IN /\ obs' = [kind |-> "seg", t |-> t, rows |-> SegRows(t),
                     nrows |-> SegNext(t)]
          /\ iters' = [iters EXCEPT ![h].next = t + 1,
                                    ![h].out = @ \cup SegRows(t),
                                    ![h].n = @ + Cardinality(SegRows(t))]
    /\ UNCHANGED <<rows, tags, lo, hi>>

\* Trajectories come in no particular order.
NextTraj(h, id) ==
    /\ h \in DOMAIN iters /\ iters[h].kind = "traj" /\ id \in iters[h].left
    /\ LET rs == TrajRows(id)
       IN /\ obs' = [kind |-> "traj", id |-> id, rows |-> rs]
          /\ iters' = [iters EXCEPT ![h].left = @ \ {id},
                                    ![h].out = @ \cup rs,
                                    ![h].n = @ + Cardinality(rs)]
    /\ UNCHANGED <<rows, tags, lo, hi>>

TrajById(id) == /\ obs' = [kind |-> "traj", id |-> id, rows |-> TrajRows(id)]
                /\ Unch
FrameByTime(t) == /\ obs' = [kind |-> "frame", t |-> t, rows |-> FrameRows(t)]
                  /\ Unch
Collect(conds) == /\ obs' = [kind |-> "rows", rows |-> Selected(conds)] /\ Unch
AskRange == /\ obs' = [kind |-> "range", first |-> First, after |-> After]
            /\ Unch
AskIds == obs' = [kind |-> "ids", ids |-> Ids(rows)] /\ Unch
AskTags == obs' = [kind |-> "tags", tags |-> tags] /\ Unch
AskBox(rs, k, n) == /\ obs' = [kind |-> "box", min |-> BoxMin(rs, k, n),
                               max |-> BoxMax(rs, k, n)]
                    /\ Unch

(* ------------------------------------------------------------- properties *)
\* A frame or trajectory iteration that is through gave every row in range
\* once, and nothing else: the two views are transposes of each other.
ViewsComplete ==
    \A h \in DOMAIN iters :
        LET it == iters[h]
        IN /\ it.n = Cardinality(it.out)
           /\ it.out \subseteq InRange
           /\ (it.kind \in {"frame", "traj"} /\ Done(it)) => it.out = InRange

\* A segment has the same particles on both sides, each in its own frame; the
\* segments of a range have every two successive points of every trajectory.
SegmentsRight ==
    /\ (obs # <<>> /\ obs.kind = "seg") =>
          /\ Ids(obs.rows) = Ids(obs.nrows)
          /\ Cardinality(obs.rows) = Cardinality(obs.nrows)
          /\ \A r \in obs.rows : r.t = obs.t
          /\ \A r \in obs.nrows : r.t = obs.t + 1
    /\ \A h \in DOMAIN iters :
          (iters[h].kind = "seg" /\ Done(iters[h])) =>
             iters[h].out = { r \in InRange : r.t + 1 < After /\
                                \E q \in InRange : q.id = r.id /\ q.t = r.t + 1 }

\* Tags tell the extent of each saved trajectory.
TagsRight == tags = TagsOfRows(rows)

\* A selection and its inversion divide the visible rows between them.
SelectionDivides ==
    (obs # <<>> /\ obs.kind = "rows") => obs.rows \subseteq InRange
=============================================================================
