------------------------------- MODULE Config -------------------------------
(* Configuration files and the objects that are saved to them and read from  *)
(* them.  A file is a function from keys to values; numbers that may have a  *)
(* fraction and texts are opaque codes, counts and frames are integers.      *)
(* Sequences:    [kind |-> "seq", diam, dens, rate, first, after, smooth,    *)
(*                minlen, trc, part]          (frames first..after-1)        *)
(* Interpolants: [kind |-> "interp", method, n, radius, param]               *)
(*                radius is [] or [r].                                       *)
(* Dual scenes:  [kind |-> "dual", diam, dens, rate, first, after, trc, part]*)
EXTENDS Util

VARIABLES files, objs
cvars == <<files, objs>>
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Less(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]

SeqKeys(o) == [ diam |-> o.diam, dens |-> o.dens, rate |-> o.rate,
    first |-> o.first, last |-> o.after - 1, smooth |-> o.smooth,
    minlen |-> o.minlen, trc |-> o.trc, part |-> o.part ]
\* No radius means that there is no such key.
InterpKeys(o) == Over([ method |-> o.method, num |-> o.n, param |-> o.param ],
    IF o.radius = <<>> THEN <<>> ELSE [radius |-> o.radius[1]])

Make(h, o) == objs' = Upd(objs, h, o) /\ UNCHANGED files
Write(f, keys) == files' = Upd(files, f, keys) /\ UNCHANGED objs
Saved(old, o) == IF o.kind = "seq" THEN Over(old, SeqKeys(o))
                 ELSE Over(Less(old, {"radius"}), InterpKeys(o))
Save(f, h) == Write(f, Saved(IF f \in DOMAIN files THEN files[f] ELSE <<>>, objs[h]))

Opt(F, k, default) == IF k \in DOMAIN F THEN F[k] ELSE default
\* Arguments, if given (not []), override the file.
Arg(a, F, k, default) == IF a # <<>> THEN a[1] ELSE Opt(F, k, default)
SeqOf(F, smooth, minlen) ==
    [kind |-> "seq", diam |-> F.diam, dens |-> F.dens, rate |-> F.rate,
     first |-> F.first, after |-> F.last + 1,
     smooth |-> Arg(smooth, F, "smooth", FALSE), minlen |-> Arg(minlen, F, "minlen", 0),
     trc |-> F.trc, part |-> F.part]
DualOf(F) ==
    [kind |-> "dual", diam |-> F.diam, dens |-> F.dens, rate |-> F.rate,
     first |-> F.first, after |-> F.last + 1, trc |-> F.trc, part |-> F.part]
\* defaults: [method -> [n, param]]
InterpOf(F, defaults) ==
    [kind |-> "interp", method |-> F.method, n |-> Opt(F, "num", defaults[F.method].n),
     radius |-> IF "radius" \in DOMAIN F THEN <<F.radius>> ELSE <<>>,
     param |-> Opt(F, "param", defaults[F.method].param)]

SeqReady(F) == {"diam", "dens", "rate", "first", "last", "trc", "part"} \subseteq DOMAIN F
InterpReady(F) == "method" \in DOMAIN F /\ (F.method = "corrfun" => "param" \in DOMAIN F)
=============================================================================
