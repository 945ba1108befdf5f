------------------------------- MODULE MCDoc --------------------------------
(* Every docstring of up to MaxLines lines: line n has the words 10*n+1, ... *)
EXTENDS Doc, TLC, Json
CONSTANTS MaxLines, Record
VARIABLES inp, done
vars == <<dvars, inp, done>>
Init == DInit /\ inp = <<>> /\ done = FALSE
W(n, len) == [i \in 1..len |-> 10 * n + i]
Line(k, n, len) ==
    CASE k = "blank" -> [k |-> k, head |-> 0, words |-> <<>>, whole |-> <<>>]
      [] k = "plain" -> [k |-> k, head |-> 0, words |-> W(n, 1 + len), whole |-> W(n, 1 + len)]
      [] OTHER -> [k |-> k, head |-> 10 * n, words |-> W(n, len), whole |-> <<10 * n>> \o W(n, len)]
Next ==
    \/ /\ ~done /\ Len(inp) < MaxLines
       /\ \E k \in {"blank", "title", "def", "plain"}, len \in {0, 2} :
            /\ k = "def" => len > 0
            /\ k = "blank" => len = 0
            /\ LET ln == Line(k, Len(inp) + 1, len)
               IN Feed(ln) /\ inp' = Append(inp, ln)
       /\ UNCHANGED done
    \/ /\ ~done /\ done' = TRUE
       /\ Record => PrintT("BEHAVIOUR " \o ToJson(inp))
       /\ UNCHANGED <<dvars, inp>>
Spec == Init /\ [][Next]_vars

Same == out = Convert(TRUE, FALSE, inp)
KeepsWords == WordsOf(out) = WordsOf(inp)
\* which lines of the input are whose.
SectionOf(n) == { m \in 1..n : \A j \in m..n : inp[j].k # "blank" }
TitlesFirst == Cardinality({ i \in DOMAIN out : out[i].k = "title" }) =
    Cardinality({ n \in DOMAIN inp : inp[n].k = "title" /\ SectionOf(n) = {n} })
DefsAreItems == Cardinality({ i \in DOMAIN out : out[i].k = "item" }) =
    Cardinality({ n \in DOMAIN inp : inp[n].k = "def" })
Indented == \A i \in DOMAIN out : out[i].k = "text" =>
    (out[i].ind = 2) = \E n \in DOMAIN inp :
        /\ inp[n].whole = out[i].words
        /\ \E m \in SectionOf(n) : m < n /\ inp[m].k = "def"
Divided == \A i \in DOMAIN out : out[i].k = "title" =>
    /\ (i < Len(out) => out[i + 1].k = "blank")
    /\ (i > 1 => out[i - 1].k = "blank")
=============================================================================
