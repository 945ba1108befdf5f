------------------------------ MODULE MCConfig ------------------------------
EXTENDS Config, TLC
CONSTANTS Files, Handles, MaxSteps
VARIABLES steps
vars == <<cvars, steps>>
Init == files = <<>> /\ objs = <<>> /\ steps = 0
Seqs == { [kind |-> "seq", diam |-> 1, dens |-> 2, rate |-> 3, first |-> a, after |-> b,
           smooth |-> s, minlen |-> m, trc |-> t, part |-> 8] :
          a \in {0, 2}, b \in {3, 5}, s \in BOOLEAN, m \in {0, 2}, t \in {7} }
Interps == { [kind |-> "interp", method |-> me, n |-> n, radius |-> r, param |-> 5] :
             me \in {"inv", "corrfun"}, n \in {3, 4}, r \in {<<>>, <<6>>} }
Defaults == [m \in {"inv", "rbf", "corrfun"} |-> [n |-> 4, param |-> 1]]
Next ==
    /\ steps < MaxSteps /\ steps' = steps + 1
    /\ \E f \in Files, h \in Handles :
         \/ \E o \in Seqs \cup Interps : Make(h, o)
         \/ h \in DOMAIN objs /\ objs[h].kind # "dual" /\ Save(f, h) /\
            \* what was saved is what would be read.
            Assert(IF objs[h].kind = "seq"
                   THEN SeqOf(files'[f], <<>>, <<>>) = objs[h]
                   ELSE InterpOf(files'[f], Defaults) = objs[h], "read back")
         \/ /\ f \in DOMAIN files
            /\ \/ SeqReady(files[f]) /\ \E s \in {<<>>, <<TRUE>>, <<FALSE>>}, m \in {<<>>, <<9>>} :
                      Make(h, SeqOf(files[f], s, m)) /\
                      Assert((s # <<>> => objs'[h].smooth = s[1]) /\
                             (m # <<>> => objs'[h].minlen = m[1]), "arguments override")
               \/ InterpReady(files[f]) /\ Make(h, InterpOf(files[f], Defaults))
               \/ SeqReady(files[f]) /\ Make(h, DualOf(files[f]))
Spec == Init /\ [][Next]_vars
\* Saving one kind of thing leaves the other in the file as it is.
Apart == [][ \A f \in DOMAIN files :
    /\ SeqReady(files[f]) /\ files'[f] # files[f] =>
         (SeqOf(files'[f], <<>>, <<>>) = SeqOf(files[f], <<>>, <<>>) \/
          Opt(files'[f], "method", "") = Opt(files[f], "method", "")) ]_vars
=============================================================================
