------------------------------ MODULE Formats -------------------------------
(* Whole-trajectory formats: a particle table, a directory with a file for   *)
(* each trajectory, a Matlab file, and trajectory-accumulation files, which  *)
(* have the whole paths of all particles that first appear in one frame.     *)
(*                                                                           *)
(* A trajectory is [id, pts], pts a sequence of [t, v] by time.  `store` is  *)
(* what was saved, as a set.  `acc` are the accumulation files, a set of     *)
(* [num, paths], a path being a sequence of points [g, x, v, a] by age g, the *)
(* first of which has age 0.  Ages may be missing.                           *)
EXTENDS Util

VARIABLES store,   \* trajectories in a table, directory or Matlab file
          adds,    \* arrays attached to trajectories: set of [name, id, arr]
          free,    \* arrays saved along: set of [name, arr]
          acc

fvars == <<store, adds, free, acc>>

(* ------------------------------------------------------------------ range *)
InRange(t, first, last) == /\ IsNone(first) \/ t >= Get(first)
                           /\ IsNone(last) \/ t <= Get(last)

Cut(tj, first, last) ==
    [tj EXCEPT !.pts = SelectSeq(tj.pts, LAMBDA p : InRange(p.t, first, last))]

\* What the generic reader gives of trajectories stored by point.
Read(trajs, first, last, minlen) ==
    { c \in { Cut(tj, first, last) : tj \in trajs } :
         Len(c.pts) >= Max2(1, IF IsNone(minlen) THEN 2 ELSE Get(minlen)) }

\* Where a range has no meaning for the points, only the length counts.
ReadWhole(trajs, minlen) == Read(trajs, None, None, minlen)

(* --------------------------------------------------------------- format *)
\* f tells what a name is like. The first that holds decides.
Format(f) == IF f.mat THEN "mat"               \* ends with mat
             ELSE IF f.slash THEN "npz"        \* ends with /
             ELSE IF f.ptvis \/ f.txt THEN "ptvis" \* has ptv_is in it, or .txt
             ELSE IF f.xuap THEN "xuap"        \* has xuap in it
             ELSE IF f.h5 \/ f.hdf THEN "hdf"  \* ends with h5 or hdf
             ELSE "acc"

(* ----------------------------------------------------------- accumulation *)
InFiles(first, last) == { f \in acc : InRange(f.num, first, last) }
AccOf(f) == [i \in DOMAIN f.paths |->
               [k \in DOMAIN f.paths[i] |-> [t |-> f.num + f.paths[i][k].g, p |-> f.paths[i][k]]]]
RECURSIVE AccList(_)
\* The trajectories of files in order of frames, those of a file in its order.
AccList(fs) == IF fs = {} THEN <<>>
               ELSE LET f == CHOOSE x \in fs : \A y \in fs : x.num <= y.num
                    IN AccOf(f) \o AccList(fs \ {f})
AccRead(first, last) == AccList(InFiles(first, last))

\* Particles of a frame: of each path that started not after it and is there
\* (and in the next frame, if asked for segments): k is its point there.
\* Files are looked at backwards as long as there are any.
Reachable(frame) == { f \in acc : /\ f.num <= frame
                                  /\ \A n \in f.num..frame : \E g \in acc : g.num = n }
AccParticles(frame, seg) ==
    UNION { UNION { { [k |-> k, path |-> p] : k \in { j \in DOMAIN p :
                        /\ p[j].g = frame - f.num
                        /\ seg => j < Len(p) /\ p[j + 1].g = p[j].g + 1 } }
                    : p \in { f.paths[i] : i \in DOMAIN f.paths } }
            : f \in Reachable(frame) }

(* ---------------------------------------------------------------- actions *)
SaveTable(trajs) == /\ store' = trajs /\ adds' = {} /\ free' = {}
                    /\ UNCHANGED acc
\* A directory keeps the files it has, but for trajectories of the same ID.
SaveDir(trajs, ads, fr) ==
    LET ids == { tj.id : tj \in trajs }
        names == { x.name : x \in fr }
    IN /\ store' = { tj \in store : tj.id \notin ids } \cup trajs
       /\ adds' = { a \in adds : a.id \notin ids } \cup ads
       /\ free' = { x \in free : x.name \notin names } \cup fr
       /\ UNCHANGED acc
SaveAcc(fs) == acc' = fs /\ UNCHANGED <<store, adds, free>>

(* ------------------------------------------------------------- properties *)
\* Reading with a range is reading, then cutting; nothing is out of range, and
\* nothing in range is lost but short remains.
ReadRight(first, last, minlen) ==
    LET r == Read(store, first, last, minlen)
        m == Max2(1, IF IsNone(minlen) THEN 2 ELSE Get(minlen))
    IN /\ \A c \in r : /\ Len(c.pts) >= m
                       /\ \A i \in DOMAIN c.pts : InRange(c.pts[i].t, first, last)
                       /\ \A i, j \in DOMAIN c.pts : i < j => c.pts[i].t < c.pts[j].t
       /\ \A tj \in store :
            LET in == { i \in DOMAIN tj.pts : InRange(tj.pts[i].t, first, last) }
            IN (Cardinality(in) >= m) <=> \E c \in r : c.id = tj.id
       /\ \A c \in r : \E tj \in store :
            /\ tj.id = c.id
            /\ Range(c.pts) = { p \in Range(tj.pts) : InRange(p.t, first, last) }

\* The particles of a frame are those that the trajectories have there.
FrameOfTrajectories(frame) ==
    (\A f, g \in acc : \A n \in f.num..g.num : \E h \in acc : h.num = n)
    /\ (\E f \in acc : f.num = frame) =>
    LET ts == AccRead(None, None)
        here == { i \in DOMAIN ts : \E q \in Range(ts[i]) : q.t = frame }
        on == { i \in here : \E q \in Range(ts[i]) : q.t = frame + 1 }
        pts(I) == { (CHOOSE q \in Range(ts[i]) : q.t = frame).p : i \in I }
    IN /\ pts(here) = { a.path[a.k] : a \in AccParticles(frame, FALSE) }
       /\ pts(on) = { a.path[a.k] : a \in AccParticles(frame, TRUE) }
=============================================================================
