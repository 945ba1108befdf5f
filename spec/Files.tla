------------------------------- MODULE Files --------------------------------
(* Files that are written and read again and again in one process, where the *)
(* writing may fail half-way: whatever provides the data - an iterator over  *)
(* trajectories or frames, an analyser - may raise, or give something that   *)
(* can't be saved.  An operation is seen here in steps: it opens the file,   *)
(* takes one thing after the other, and ends well or fails; what matters is  *)
(* that it lets go of the file in any case, as a file that is in use can not *)
(* be written.                                                               *)
EXTENDS Util, TLC

VARIABLES
    content,  \* of each file: what kind of table it has, and its rows <<id, t, v>>
    using,    \* which files are in use, by which operation
    op,       \* what is being done: [kind, f, left, rows, fail] or NoOp
    obs       \* how the last operation ended, what it gave

fvars == <<content, using, op, obs>>

Nothing == [kind |-> "none", rows |-> {}]
Broken == [kind |-> "broken", rows |-> {}]
NoOp == [kind |-> "idle"]
Idle == op.kind = "idle"
Ended(how, rows) == [how |-> how, rows |-> rows]

Contents(f) == IF f \in DOMAIN content THEN content[f] ELSE Nothing
Put(f, c) == [x \in DOMAIN content \cup {f} |-> IF x = f THEN c ELSE content[x]]

\* ---- in steps
\* `fail` is the number of things that are given before the failure, or one
\* more than those there are for no failure.
Begin(kind, f, things, fail) ==
    /\ Idle /\ f \notin using
    /\ using' = using \cup {f}
    /\ op' = [kind |-> kind, f |-> f, left |-> things, rows |-> {}, fail |-> fail]
    /\ obs' = Ended("working", {}) /\ UNCHANGED content
    
Take == /\ ~Idle /\ op.fail > 0 /\ op.left # <<>>
        /\ op' = [op EXCEPT !.rows = @ \cup Head(op.left), !.left = Tail(@), !.fail = @ - 1]
        /\ UNCHANGED <<content, using, obs>>

Fail == /\ ~Idle /\ op.fail = 0
        /\ content' = Put(op.f, Broken)
        /\ using' = using \ {op.f}
        /\ op' = NoOp /\ obs' = Ended("failed", {})

Done == /\ ~Idle /\ op.fail > 0 /\ op.left = <<>>
        /\ content' = Put(op.f, [kind |-> op.kind, rows |-> op.rows])
        /\ using' = using \ {op.f}
        /\ op' = NoOp /\ obs' = Ended("done", {})

\* ---- as a whole: what is observed of an operation
Write(kind, f, rows, fails) ==
    /\ Idle /\ UNCHANGED <<using, op>>
    /\ content' = Put(f, IF fails THEN Broken ELSE [kind |-> kind, rows |-> rows])
    /\ obs' = Ended(IF fails THEN "failed" ELSE "done", {})

\* Reading, all or only the first few, changes nothing and leaves nothing.
Read(f) == /\ Idle /\ UNCHANGED <<content, using, op>>
           /\ obs' = Ended("read", Contents(f).rows)

\* ---- the rows of an analysis: what goes on to the next frame of the range
InFrames(lo, hi) == lo..(hi - 1)
Analysed(rows, lo, hi) ==
    { r \in rows : /\ r[2] \in InFrames(lo, hi) /\ r[2] + 1 \in InFrames(lo, hi)
                   /\ \E s \in rows : s[1] = r[1] /\ s[2] = r[2] + 1 }

\* ---- properties
LetGo == Idle => using = {}
Writable == Idle => \A f \in DOMAIN content : f \notin using
OnlyWhole == \A f \in DOMAIN content : content[f].kind \in {"none", "broken"} =>
                content[f].rows = {}
=============================================================================
