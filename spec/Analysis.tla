------------------------------ MODULE Analysis ------------------------------
(* Analysing the segments of a dual scene, and the joint view of particles   *)
(* and their analysis.  Each analyser is shown each segment of the range, in *)
(* order, and answers with its columns, a value for each particle; a row of  *)
(* the table has all analysers' columns, in order, for one particle and      *)
(* frame.                                                                    *)
EXTENDS Util

VARIABLES prow, trow,  \* the two streams
          lo, hi,      \* the range analysed
          nan,         \* number of analysers
          at,          \* the segment that each analyser is to be shown next
          res          \* their answers, set of [k, id, t, c]

avars == <<prow, trow, lo, hi, nan, at, res>>

P == INSTANCE Store WITH rows <- prow, tags <- {}, iters <- <<>>, obs <- <<>>
T == INSTANCE Store WITH rows <- trow, tags <- {}, iters <- <<>>, obs <- <<>>

FirstSeg == P!First
AfterSegs == P!After - 1       \* a frame in the range, and the next one too.
Segs == FirstSeg..(AfterSegs - 1)

Begin(p, q, l0, h0, n) ==
    /\ prow' = p /\ trow' = q /\ lo' = l0 /\ hi' = h0 /\ nan' = n
    /\ at' = [k \in 1..n |->
                IF IsNone(l0) THEN SetMin(P!Times(p)) ELSE Get(l0)]
    /\ res' = {}

\* What analyser k is shown, in its turn.
Shown(k) == [t |-> at[k], p |-> P!SegRows(at[k]), pn |-> P!SegNext(at[k]),
             q |-> T!SegRows(at[k]), qn |-> T!SegNext(at[k])]

\* Its answer, a set of [id, c], one for each particle.
Analyse(k, answer) ==
    /\ k \in 1..nan /\ at[k] < AfterSegs
    /\ res' = res \cup { [k |-> k, id |-> a.id, t |-> at[k], c |-> a.c] : a \in answer }
    /\ at' = [at EXCEPT ![k] = @ + 1]
    /\ UNCHANGED <<prow, trow, lo, hi, nan>>

Finished == \A k \in 1..nan : at[k] >= AfterSegs

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))

AnswerOf(k, id, t) == (CHOOSE a \in res : a.k = k /\ a.id = id /\ a.t = t).c

Table == UNION { { [id |-> r.id, t |-> t,
                    c |-> Concat([k \in 1..nan |-> AnswerOf(k, r.id, t)])]
                   : r \in P!SegRows(t) } : t \in Segs }

(* ---------------------------------------------------------- the joint view *)
\* `shown` is the range of the particles in the joint view, tab an analysis.
Visible(r, l0, h0) == /\ IsNone(l0) \/ Get(l0) <= r.t
                      /\ IsNone(h0) \/ r.t < Get(h0)
\* A condition is on particle property number c.key, or else on a column of
\* the analysis (of one component); 0 and -1 are the ID and the time.
Meets(r, a, c) ==
    LET x == IF c.key = 0 THEN r.id ELSE IF c.key = -1 THEN r.t
             ELSE IF c.an THEN a.c[c.key][1] ELSE r.v[c.key][1]
    IN IF c.inv THEN x < c.min \/ x >= c.max ELSE c.min <= x /\ x < c.max
Joined(rs, tab, l0, h0, conds) ==
    { ra \in rs \X tab : /\ ra[1].id = ra[2].id /\ ra[1].t = ra[2].t
                         /\ Visible(ra[1], l0, h0)
                         /\ \A c \in Range(conds) : Meets(ra[1], ra[2], c) }

\* A particle's trajectory in the joint view: but for its last point.
TrajRows(rs, id, l0, h0) ==
    LET mine == { r \in rs : r.id = id /\ Visible(r, l0, h0) }
    IN { r \in mine : \E q \in mine : q.t > r.t }
\* ... of any analysis: those of its points that have results. For one of the
\* whole range this is the same: see JoinIsTrajectory.
JointRows(rs, table, id, l0, h0) ==
    { r \in rs : /\ r.id = id /\ Visible(r, l0, h0)
                /\ \E a \in table : a.id = id /\ a.t = r.t }

(* ------------------------------------------------------------- properties *)
OneRowEach ==
    Finished =>
      /\ Cardinality(Table) = Cardinality(
            UNION { { <<r.id, t>> : r \in P!SegRows(t) } : t \in Segs })
      /\ \A a \in Table : \E r \in prow :
            /\ r.id = a.id /\ r.t = a.t
            /\ \E q \in prow : q.id = a.id /\ q.t = a.t + 1

Contiguous(rs) == \A r, q \in rs : r.id = q.id =>
                     \A t \in r.t..q.t : \E s \in rs : s.id = r.id /\ s.t = t

\* Without holes, the analysed points of a trajectory are all but its last.
JoinIsTrajectory ==
    (Finished /\ prow # {} /\ Contiguous(prow)) =>
       \A id \in P!Ids(prow) :
          /\ { ra[1] : ra \in { x \in Joined(prow, Table, lo, hi, <<>>) : x[1].id = id } }
            = TrajRows(prow, id, lo, hi)
          /\ JointRows(prow, Table, id, lo, hi) = TrajRows(prow, id, lo, hi)
=============================================================================
