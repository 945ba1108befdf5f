----------------------------- MODULE TraceSpline ----------------------------
(* Checks real spline smoothings against Spline.                             *)
EXTENDS Spline, TraceLib
VARIABLE given      \* the path: its id, times, steps
tvars == <<given, tr, l, bad>>
O == Ev.obs
Init == TraceInit /\ given = [id |-> 0, ts |-> <<>>, d |-> <<>>]
Near(s) == \A i \in DOMAIN s : Abs(s[i]) <= 1000000
Close(s) == \A i \in DOMAIN s : Abs(s[i]) <= 5000
\* Finite numbers.
Known(s) == \A i \in DOMAIN s : s[i] # -999999999
PathClauses ==
    LET n == Len(given.ts)
        o == Ev.order
        g == O.comp
    IN Failing({
        <<"id", O.id = given.id>>,
        <<"times", O.ts = given.ts>>,
        <<"lengths", \A c \in 1..3 : Len(g[c].p) = n /\ Len(g[c].v) = n /\ Len(g[c].a) = n>>})
       \cup
       IF \E c \in 1..3 : Len(g[c].p) # n \/ Len(g[c].v) # n \/ Len(g[c].a) # n THEN {} ELSE
       \* the solver says so when it gives up on the deviation asked for.
       Failing({
        <<"deviation", O.warned \/ (Close(O.r) /\ Within(O.r, n, Ev.bound))>>,
        <<"strength", O.warned \/ ~Close(O.r) \/ AsFar(O.r, n, Ev.bound) \/
            \A c \in 1..3 : Near(g[c].v) /\ Near(g[c].a) /\ OnePiece(o, given.d, g[c].v, g[c].a)>>,
        <<"positions", \A c \in 1..3 : Known(g[c].p) /\ Known(g[c].v) /\ Known(g[c].a)>>,
        \* paths of very uneven steps may swing too wildly between the points
        \* to be followed in these numbers.
        <<"derivatives", \A c \in 1..3 :
            ~(Near(g[c].p) /\ Near(g[c].v) /\ Near(g[c].a))
                \/ Fits(o, given.d, g[c].p, g[c].v, g[c].a)>> })
Apply ==
    CASE Ev.op = "given" -> given' = [id |-> Ev.id, ts |-> Ev.ts, d |-> Ev.d] /\ Advance({})
      [] Ev.op = "smooth" ->
           /\ UNCHANGED given
           /\ Advance(Failing({ <<"given-unchanged", O.unchanged>> }) \cup
                IF ~Smoothable(Len(given.ts), Ev.order)
                THEN Failing({ <<"too-short-as-is", O.asis>> }) ELSE PathClauses)
Quiet == UNCHANGED given
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
