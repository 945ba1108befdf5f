----------------------------- MODULE MCFormats ------------------------------
EXTENDS Formats, TLC
CONSTANTS MaxT, MaxId, MaxF, MaxLen

TrajOn(id, S) == [id |-> id, pts |-> [n \in 1..Cardinality(S) |->
    [t |-> CHOOSE x \in S : Cardinality({ y \in S : y < x }) = n - 1, v |-> id]]]
Stores == { { TrajOn(i, f[i]) : i \in { j \in 1..MaxId : f[j] # {} } }
            : f \in [1..MaxId -> SUBSET (1..MaxT)] }
\* Files of up to two paths, each point different. A path has all ages up to
\* some, or all of them but the first ones after its start.
Shapes == { <<n, h>> \in (1..MaxLen) \X {0, 1} : n > 1 \/ h = 0 }
Path(n, i, s) == [k \in 1..s[1] |-> [g |-> IF k = 1 THEN 0 ELSE k - 1 + s[2],
                                     x |-> <<n, i, k>>, v |-> k, a |-> k]]
Files == { { [num |-> n, paths |-> [i \in 1..Len(f[n]) |-> Path(n, i, f[n][i])]]
             : n \in { m \in 1..MaxF : f[m] # <<>> } }
           : f \in [1..MaxF -> { <<>> } \cup { <<a>> : a \in Shapes }
                              \cup { <<a, b>> : a, b \in Shapes }] }
Opts == { None } \cup { Some(x) : x \in 0..(MaxT + 1) }

Init == store = {} /\ adds = {} /\ free = {} /\ acc = {}
Next == \/ store = {} /\ acc = {} /\ \E s \in Stores : SaveTable(s)
        \/ store # {} /\ acc = {} /\ \E s \in Stores : SaveDir(s, {}, {}) 
        \/ acc = {} /\ store = {} /\ \E f \in Files : SaveAcc(f)
Spec == Init /\ [][Next]_fvars

ReadsRight == \A a, b \in Opts, m \in { None } \cup { Some(x) : x \in 0..3 } : ReadRight(a, b, m)
FramesRight == \A f \in 1..(MaxF + 1) : FrameOfTrajectories(f)
UniqueIds == \A a, b \in store : a.id = b.id => a = b
Features == [{"mat", "slash", "ptvis", "txt", "xuap", "h5", "hdf"} -> BOOLEAN]
FormatKnown == \A f \in Features :
    /\ Format(f) \in {"mat", "npz", "ptvis", "xuap", "hdf", "acc"}
    /\ (f.mat <=> Format(f) = "mat")
    /\ (Format(f) = "acc" <=> \A k \in DOMAIN f : ~f[k])
=============================================================================
