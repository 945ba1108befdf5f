-------------------------------- MODULE MCSeq -------------------------------
EXTENDS Seq, TLC, Json, Randomization
CONSTANTS MaxT, NSlots, Record, MaxLen
VARIABLES made, hist
mcvars == <<qvars, made, hist>>

Trj(id) == { [id |-> id, t0 |-> a, pts |-> [k \in 1..(b - a + 1) |-> <<id * 10 + a + k - 1>>]]
             : <<a, b>> \in { p \in (1..MaxT) \X (1..MaxT) : p[1] <= p[2] } }
Sets == { {x, y} : x \in Trj(1), y \in Trj(2) } \cup { {x} : x \in Trj(1) }
Do(h) == hist' = IF Record THEN Append(hist, h) ELSE hist

Init == /\ parts = {} /\ trcs = {} /\ rng = <<1, 1>> /\ minlen = 0
        /\ psel = {} /\ tsel = {} /\ its = <<>>
        /\ made = FALSE /\ hist = <<>>

Slots == 1..NSlots
Subs == { p \in (1..MaxT) \X (1..MaxT) : rng[1] <= p[1] /\ p[1] <= p[2] /\ p[2] <= rng[2] }
\* The function returns for each particle a value that says when, and who.
Res(h) == [i \in { r.id : r \in Item(its[h].next).p } |-> i * 100 + its[h].next]

Create == /\ ~made /\ made' = TRUE
          /\ \E p \in (IF Record THEN RandomSubset(4, Sets) ELSE Sets),
                q \in (IF Record THEN RandomSubset(2, Sets)
                       ELSE { {x} : x \in { y \in Trj(1) : y.t0 = 1 } }),
                r \in { x \in (1..MaxT) \X (1..MaxT) : x[1] < x[2] }, m \in {0, 2} :
               /\ Make(p, q, r, m)
               /\ \E c \in p : Max2(First(c), r[1]) <= Min2(Last(c), r[2]) /\
                       Min2(Last(c), r[2]) - Max2(First(c), r[1]) + 1 >= m
               /\ \E c \in q : Max2(First(c), r[1]) <= Min2(Last(c), r[2]) /\
                       Min2(Last(c), r[2]) - Max2(First(c), r[1]) + 1 >= m
               /\ Do([op |-> "make", p |-> p, q |-> q, rng |-> r, minlen |-> m])
Use == /\ made /\ UNCHANGED made
       /\ \/ \E w \in {"p", "q"}, ids \in SUBSET {1, 2} :
               /\ Select(w, ids)
               /\ \E c \in IF w = "p" THEN Visible(parts) ELSE Visible(trcs) : c.id \in ids
               /\ Do([op |-> "select", which |-> w, ids |-> ids])
          \/ \E h \in Slots, s \in Subs : h \notin DOMAIN its /\
               \/ Start(h, s[1], s[2]) /\ Do([op |-> "start", h |-> h, lo |-> s[1], hi |-> s[2]])
               \/ StartMap(h, s[1], s[2]) /\ ~Record /\ Do(0)
          \/ \E h \in DOMAIN its :
               \/ ~its[h].map /\ Step(h) /\ Do([op |-> "next", h |-> h])
               \/ AtEnd(h) /\ Finish(h) /\ Do([op |-> "next", h |-> h])
               \/ its[h].map /\ ~AtEnd(h) /\ Call(h, Res(h)) /\ Do(0)
               \/ ~AtEnd(h) /\ Finish(h) /\ Do([op |-> "abandon", h |-> h])
Done == /\ Record /\ Len(hist) = MaxLen
        /\ PrintT("BEHAVIOUR " \o ToJson(hist))
        /\ hist' = Append(hist, [op |-> "end"])
        /\ UNCHANGED <<qvars, made>>
Next == ((Record => Len(hist) < MaxLen) /\ (Create \/ Use)) \/ Done
Spec == Init /\ [][Next]_mcvars
=============================================================================
