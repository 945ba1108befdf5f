------------------------------- MODULE Linker -------------------------------
(* Reading frame files whose particles are linked to those of the frames     *)
(* before and after.  Frames arrive one at a time; each row of a frame either*)
(* continues the chain of a row in the frame before it or starts a new one,  *)
(* and may be the last of its chain.  Chains that end are given out; those   *)
(* that do not end in the frames read are not (a named limit of the reader). *)
(*                                                                           *)
(* A frame is [num, parts], parts a sequence of [prev, ended, x, v]: prev is *)
(* the row (from 1) in the frame before, 0 for none; x the position, v the   *)
(* velocity in the file, if any.                                             *)
EXTENDS Util

VARIABLES frames,   \* the frames read so far, in order
          open,     \* for each row of the last frame, the chain it ends
          done      \* chains that ended, as sequences of <<frame ix, row>>

lvars == <<frames, open, done>>

LInit == frames = <<>> /\ open = <<>> /\ done = {}

Feed(f) ==
    LET n == Len(frames) + 1
        \* rows of the first frame read have nothing to continue.
        chain(r) == IF n = 1 \/ f.parts[r].prev = 0 THEN << <<n, r>> >>
                    ELSE Append(open[f.parts[r].prev], <<n, r>>)
    IN /\ frames' = Append(frames, f)
       /\ open' = [r \in DOMAIN f.parts |-> chain(r)]
       /\ done' = done \cup { chain(r) : r \in { q \in DOMAIN f.parts : f.parts[q].ended } }

FeedAll(fs) ==
    LET RECURSIVE go(_, _, _)
        go(n, op, dn) ==
            IF n > Len(fs) THEN dn
            ELSE LET f == fs[n]
                     ch == [r \in DOMAIN f.parts |->
                              IF n = 1 \/ f.parts[r].prev = 0 THEN << <<n, r>> >>
                              ELSE Append(op[f.parts[r].prev], <<n, r>>)]
                 IN go(n + 1, ch, dn \cup { ch[r] : r \in { q \in DOMAIN f.parts :
                                                         f.parts[q].ended } })
    IN go(1, <<>>, {})

Given(minlen) == { c \in done : Len(c) >= minlen }

(* ------------------------------------------------------------ kinematics *)
At(fs, p) == fs[p[1]].parts[p[2]]
Sub3(a, b, k) == [i \in 1..Len(a) |-> (a[i] - b[i]) * k]
Zero == <<0, 0, 0>>

Times(fs, c) == [k \in DOMAIN c |-> fs[c[k][1]].num]
Positions(fs, c) == [k \in DOMAIN c |-> At(fs, c[k]).x]

\* Forward differences; rate is the (whole) frame rate in the unit of values.
Velocities(fs, c, rate, infile) ==
    [k \in DOMAIN c |->
        IF infile THEN At(fs, c[k]).v
        ELSE IF k < Len(c) THEN Sub3(At(fs, c[k + 1]).x, At(fs, c[k]).x, rate)
        ELSE Zero]
Accels(fs, c, rate, infile) ==
    LET v == Velocities(fs, c, rate, infile)
    IN [k \in DOMAIN c |-> IF k < Len(c) - 1 THEN Sub3(v[k + 1], v[k], rate)
                           ELSE Zero]

(* ------------------------------------------------------------- properties *)
Rows == { <<n, r>> : n \in 1..Len(frames), r \in 1..10 }
Row(p) == p[1] <= Len(frames) /\ p[2] <= Len(frames[p[1]].parts)
Real == { p \in Rows : Row(p) }
Linked(p, q) == q[1] = p[1] + 1 /\ At(frames, q).prev = p[2]

\* Said without the way of building: every row that ends its chain has one
\* chain, which goes back over the links to a row with no link or to the first
\* frame; nothing else is given out.
ChainsRight ==
    /\ \A c \in done :
          /\ At(frames, c[Len(c)]).ended
          /\ \A k \in 1..(Len(c) - 1) : Linked(c[k], c[k + 1])
          /\ At(frames, c[1]).prev = 0 \/ c[1][1] = 1
    /\ \A p \in Real : At(frames, p).ended =>
          Cardinality({ c \in done : c[Len(c)] = p }) = 1
\* No point is in two chains, and every point of a link structure without dead
\* ends is in one, when all the chains have ended.
PointsOnce ==
    /\ \A c, d \in done : (Range(c) \cap Range(d) # {}) => c = d
    /\ (frames # <<>> /\ \A r \in DOMAIN frames[Len(frames)].parts :
            frames[Len(frames)].parts[r].ended) =>
          UNION { Range(c) : c \in done } = Real
\* A chain has one point in each successive frame.
NoHoles == \A c \in done : \A k \in 1..(Len(c) - 1) : c[k + 1][1] = c[k][1] + 1
\* Feeding at once is feeding one by one.
AllAtOnce == FeedAll(frames) = done
\* Derivatives of a path at constant speed: the speed, and no acceleration,
\* but at its end.
DiffRight ==
    \A c \in done :
        LET v == Velocities(frames, c, 3, FALSE)
            a == Accels(frames, c, 3, FALSE)
        IN /\ v[Len(c)] = Zero
           /\ \A k \in 1..(Len(c) - 1) :
                 [i \in 1..3 |-> 3 * Positions(frames, c)[k][i] + v[k][i]] =
                 [i \in 1..3 |-> 3 * Positions(frames, c)[k + 1][i]]
           /\ \A k \in DOMAIN c : (k >= Len(c) - 1) => a[k] = Zero
           /\ \A k \in 1..(Len(c) - 2) :
                 [i \in 1..3 |-> v[k][i] * 3 + a[k][i]] =
                 [i \in 1..3 |-> v[k + 1][i] * 3]
=============================================================================
