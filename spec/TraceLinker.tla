---------------------------- MODULE TraceLinker -----------------------------
(* Checks what the real readers make of linked frame files against Linker.   *)
EXTENDS Linker, TraceLib

tvars == <<lvars, tr, l, bad>>

Init == TraceInit /\ LInit

\* The frames on the disk that the reader has to read, in order of number. A
\* file of all frames has no numbers, they count from 0.
OnDisk == Traces[tr].sets[Ev.set]
ReadFrames == SelectSeq(OnDisk,
    LAMBDA f : /\ IsNone(Ev.first) \/ f.num >= Get(Ev.first)
               /\ IsNone(Ev.last) \/ f.num <= Get(Ev.last))

MinLen == IF IsNone(Ev.minlen) THEN 2 ELSE Get(Ev.minlen)

Path(t, x) == [t |-> t, x |-> x]
Motion(t, x, v, a) == [t |-> t, x |-> x, v |-> v, a |-> a]

Clauses(fs, cs, shown) ==
    LET paths == { Path(Times(fs, c), Positions(fs, c)) : c \in cs }
        got == { Path(shown[i].t, shown[i].x) : i \in DOMAIN shown }
        times == { p.t : p \in paths }
    IN Failing({
         <<"ids-unique", Cardinality({ shown[i].id : i \in DOMAIN shown })
                            = Len(shown)>>,
         <<"chain-count", IF Ev.partial THEN Len(shown) <= Cardinality(cs)
                          ELSE Len(shown) = Cardinality(cs)>>,
         <<"missing-chain", Ev.partial \/ paths \subseteq got>>,
         <<"foreign-chain", got \subseteq paths>> })
       \cup
       IF ~Ev.kin THEN {} ELSE
       LET vs == { <<Path(Times(fs, c), Positions(fs, c)),
                     Velocities(fs, c, Ev.rate, Ev.infile)>> : c \in cs }
           as == { <<Path(Times(fs, c), Positions(fs, c)),
                     Accels(fs, c, Ev.rate, Ev.infile)>> : c \in cs }
       IN Failing({
            <<"velocity", \A i \in DOMAIN shown :
                <<Path(shown[i].t, shown[i].x), shown[i].v>> \in vs>>,
            <<"acceleration", \A i \in DOMAIN shown :
                <<Path(shown[i].t, shown[i].x), shown[i].a>> \in as>> })

Read ==
    LET fs == ReadFrames
        dn == FeedAll(fs)
        cs == { c \in dn : Len(c) >= MinLen }
    IN Advance(Clauses(fs, cs, Ev.obs.trajs))

Next == /\ \/ More /\ Ev.err = "" /\ Read
           \/ Raised
           \/ Verdict
        /\ UNCHANGED lvars

Spec == Init /\ [][Next]_tvars
=============================================================================
