------------------------------ MODULE TraceDoc ------------------------------
(* Checks real conversions of docstrings against Doc.                        *)
EXTENDS Doc, TraceLib
tvars == <<dvars, tr, l, bad>>
O == Ev.obs
Init == TraceInit /\ DInit

Want == Convert(TRUE, FALSE, Ev.lines)
Got == O.lines
Sq(x) == Squeeze(x, TRUE)
Of(k, s) == SelectSeq(s, LAMBDA x : x.k = k)
Apply == UNCHANGED dvars /\ Advance(Failing({
    <<"words", WordsOf(Got) = WordsOf(Want)>>,
    <<"titles", Of("title", Got) = Of("title", Want)>>,
    <<"items", Of("item", Got) = Of("item", Want)>>,
    <<"indentation", Of("text", Got) = Of("text", Want)>>,
    <<"layout", Sq(Got) = Sq(Want)>>,
    <<"sections-kept", Cardinality({ i \in DOMAIN Got : Got[i].k = "blank" }) >=
        Cardinality({ i \in DOMAIN Ev.lines : Ev.lines[i].k = "blank" })>>,
    <<"in-place", O.inplace>> }))
Quiet == UNCHANGED dvars
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
