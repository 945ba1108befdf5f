----------------------------- MODULE TraceConfig ----------------------------
(* Checks real savings and readings of configurations against Config.        *)
EXTENDS Config, TraceLib
VARIABLE fps      \* [handle of interpolant -> how it interpolates a scene]
tvars == <<cvars, fps, tr, l, bad>>
O == Ev.obs
Init == TraceInit /\ files = <<>> /\ objs = <<>> /\ fps = <<>>
Defaults == Traces[tr].defaults

Keys(ps) == [k \in { ps[i].k : i \in DOMAIN ps } |-> ps[CHOOSE i \in DOMAIN ps : ps[i].k = k].v]
\* As saved into an empty configuration.
Described(ps, o) == { <<"saved-again-" \o k, Opt(Keys(ps), k, "none") = Saved(<<>>, o)[k]>>
                      : k \in DOMAIN Saved(<<>>, o) }
                    \cup { <<"saved-again", DOMAIN Keys(ps) = DOMAIN Saved(<<>>, o)>> }
Shows(o, ks) == { <<k, O[k] = o[k]>> : k \in ks }
Alike(h, o, fp) == { <<"same-interpolation",
    \A x \in DOMAIN fps : objs[x] = o => fps[x] = fp>> }

\* A particle is a ball all of its density: its share of the cube around it is
\* pi/6. In millionths.
Body == <<"ball", O.ball = <<523599, 1000000>> >>

Apply ==
    CASE Ev.op = "make" ->
            /\ Make(Ev.h, Ev.o)
            /\ IF Ev.o.kind = "interp"
               THEN fps' = Upd(fps, Ev.h, O.fp) /\
                    Advance(Failing(Alike(Ev.h, Ev.o, O.fp)))
               ELSE UNCHANGED fps /\ Advance({})
      [] Ev.op = "hand" -> Write(Ev.f, Keys(Ev.keys)) /\ UNCHANGED fps /\ Advance({})
      [] Ev.op = "save" ->
            /\ Save(Ev.f, Ev.h) /\ UNCHANGED fps
            /\ Advance(Failing({ <<"file-contents", Keys(O.keys) = files'[Ev.f]>> }))
      [] Ev.op = "read_seq" ->
            LET o == SeqOf(files[Ev.f], Ev.smooth, Ev.minlen)
            IN /\ Make(Ev.h, o) /\ UNCHANGED fps
               /\ Advance(Failing(
                    Shows(o, {"diam", "dens", "rate", "first", "after", "part"})
                    \cup { Body } \cup Described(O.saved, o)))
      [] Ev.op = "read_interp" ->
            LET o == InterpOf(files[Ev.f], Defaults)
            IN /\ Make(Ev.h, o) /\ fps' = Upd(fps, Ev.h, O.fp)
               /\ Advance(Failing(Shows(o, {"n", "radius"}) \cup Described(O.saved, o)
                    \cup Alike(Ev.h, o, O.fp)))
      [] Ev.op = "read_dual" ->
            LET o == DualOf(files[Ev.f])
                frames == [k \in 1..(o.after - o.first) |-> o.first + k - 1]
            IN /\ Make(Ev.h, o) /\ UNCHANGED fps
               /\ Advance(Failing(Shows(o, {"diam", "dens", "rate", "first", "after", "part"})
                    \cup { Body, <<"frames", O.frames = frames>>,
                           <<"tracer-frames", O.tframes = frames>>,
                           <<"tracers", o.trc = O.trc>> }))
Quiet == UNCHANGED <<cvars, fps>>
Next == \/ More /\ Ev.err = "" /\ Apply
        \/ Raised /\ Quiet
        \/ Verdict /\ Quiet
Spec == Init /\ [][Next]_tvars
=============================================================================
