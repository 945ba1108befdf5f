-------------------------------- MODULE Doc ---------------------------------
(* Conversion of docstrings for the manual, a line at a time.                *)
(* A line read is                                                            *)
(*   [k |-> "blank", head |-> 0, words |-> <<>>]                             *)
(*   [k |-> "title", head, words]    "head: words"                           *)
(*   [k |-> "def", head, words]      "head - words"                          *)
(*   [k |-> "plain", head |-> 0, words]                                      *)
(* Only the first line of a section (sections are divided by blank lines)    *)
(* is a title; anywhere else a line of this form is a plain line, with the   *)
(* words all |-> title as one word, then the words.                          *)
(* A line written is [k |-> "blank" | "title" | "item" | "text", head,       *)
(* words, ind].                                                              *)
EXTENDS Util

VARIABLES first,     \* the next line is the first of its section
          items,     \* a definition was met in this section
          out        \* lines written so far
dvars == <<first, items, out>>

Blank == [k |-> "blank", head |-> 0, words |-> <<>>, ind |-> 0]
Title(h) == [k |-> "title", head |-> h, words |-> <<>>, ind |-> 0]
Item(h, ws) == [k |-> "item", head |-> h, words |-> ws, ind |-> 0]
Text(ws, i) == [k |-> "text", head |-> 0, words |-> ws, ind |-> i]

\* What one line gives, when first and items are so. `whole` is the words of
\* the line as it stands.
Lines(f, i, ln) ==
    CASE ln.k = "blank" -> <<Blank>>
      [] ln.k = "title" /\ f ->
            <<Title(ln.head), Blank>> \o
            (IF ln.words = <<>> THEN <<>> ELSE <<Text(ln.words, 0)>>)
      [] ln.k = "def" -> <<Blank, Item(ln.head, ln.words)>>
      [] OTHER -> <<Text(ln.whole, IF i THEN 2 ELSE 0)>>

DInit == first = TRUE /\ items = FALSE /\ out = <<>>
Feed(ln) ==
    /\ out' = out \o Lines(first, items, ln)
    /\ first' = (ln.k = "blank")
    /\ items' = (ln.k # "blank" /\ (items \/ ln.k = "def"))

RECURSIVE Convert(_, _, _)
Convert(f, i, lns) ==
    IF lns = <<>> THEN <<>>
    ELSE LET ln == Head(lns) IN
         Lines(f, i, ln) \o
         Convert(ln.k = "blank", ln.k # "blank" /\ (i \/ ln.k = "def"), Tail(lns))

\* Extra blank lines mean nothing to the manual, but where there is one
\* between two lines there has to be one.
RECURSIVE Squeeze(_, _)
Squeeze(lns, gap) ==
    IF lns = <<>> THEN <<>>
    ELSE LET x == Head(lns) IN
         IF x.k = "blank" THEN Squeeze(Tail(lns), TRUE)
         ELSE <<[line |-> x, gap |-> gap]>> \o Squeeze(Tail(lns), FALSE)

RECURSIVE WordsOf(_)
WordsOf(lns) ==
    IF lns = <<>> THEN <<>>
    ELSE LET x == Head(lns) IN
         (IF x.k \in {"title", "item", "def"} THEN <<x.head>> ELSE <<>>)
         \o x.words \o WordsOf(Tail(lns))
=============================================================================
