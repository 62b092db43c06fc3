------------------------------- MODULE Faults -------------------------------
(* What may come of a file that may hold anything.                                     *)
(* A file is a container (whole, cut short, with bytes changed, with bytes put before  *)
(* or after it) of parts; each part is good, gone, bad (no XML at all, or nested        *)
(* beyond any sense) or odd (XML, but changed in some way nothing is known about).      *)
(* The parts told apart are the slides "1".."n", "pres" (the presentation), "prel" (its *)
(* relationships), "core" (the properties), "types" and "more" (everything else).       *)
EXTENDS Naturals, Sequences, FiniteSets

Boxes == {"whole", "cut", "flip", "tail", "lead"}
Statuses == {"good", "gone", "bad", "odd"}
Calls == {"package", "reader", "editor", "import", "repair", "validate", "compress", "analyze"}
Texts == {"markdown", "html", "xml", "well-formed", "unit"}

\* f = [box, n, st]   st: a function from class names to statuses
Digit(i) == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>[i]
Slides(f) == {Digit(i) : i \in 1..f.n}
Classes(n) == {Digit(i) : i \in 1..n} \cup {"pres", "prel", "core", "types", "more"}
Good(f, S) == \A x \in S : f.st[x] = "good"
Spine(f) == Good(f, {"pres", "prel"})
Intact(f) == f.box = "whole" /\ Good(f, Classes(f.n))

(* how a call may end: it always returns *)
Ends(f, what) ==
  CASE what = "validate" -> {"ok"}
    [] f.box = "cut" -> {"err"}
    [] f.box # "whole" -> {"ok", "err"}
    [] what \in {"package", "reader", "repair", "analyze"} -> {"ok"}
    \* slides listed in another order than they are numbered are renumbered on opening, which takes a table of types
    [] what = "editor" -> IF Spine(f) THEN {"ok"} ELSE {"ok", "err"}
    [] what = "import" -> IF ~Spine(f) THEN {"ok", "err"}
                          ELSE IF Good(f, Slides(f)) THEN {"ok"}
                          ELSE IF \E x \in Slides(f) : f.st[x] \in {"gone", "bad"} THEN {"err"} ELSE {"ok", "err"}
    [] OTHER -> IF Intact(f) THEN {"ok"} ELSE {"ok", "err"}

(* what validation must say of it *)
Verdicts(f) == IF Intact(f) THEN {TRUE}
               ELSE IF f.box = "cut" \/ (f.box = "whole" /\ \E x \in Classes(f.n) : f.st[x] = "bad" \/ (f.st[x] = "gone" /\ x # "more" /\ \A y \in Classes(f.n) : f.st[y] # "odd")) THEN {FALSE}
               ELSE {TRUE, FALSE}

(* what a slide reads as: a reading of the intact file, an error, or anything *)
Reading(f, i) ==
  IF f.box # "whole" \/ ~Spine(f) THEN "anything"
  ELSE CASE f.st[Digit(i)] = "good" -> "as-before"
         [] f.st[Digit(i)] \in {"gone", "bad"} -> "error"
         [] OTHER -> "anything"

(* the editing plan run on every file the editor opens: which steps succeed, how many slides are left *)
Plan == <<"add", "dup-first", "dup-last", "insert-first", "update-second", "move-first-to-last", "remove-first", "remove-beyond", "save">>
Grow(op) == IF op \in {"add", "dup-first", "dup-last", "insert-first"} THEN 1 ELSE 0
Shrink(op, c) == IF op = "remove-first" /\ c > 0 THEN 1 ELSE 0
Fits(op, c) ==
  CASE op \in {"add", "insert-first", "save"} -> TRUE
    [] op = "remove-beyond" -> FALSE
    [] op = "update-second" -> c > 1
    [] OTHER -> c > 0
RECURSIVE Counts(_, _)
Counts(c, k) == IF k = 0 THEN c
                ELSE LET b == Counts(c, k - 1) IN IF Fits(Plan[k], b) THEN b + Grow(Plan[k]) - Shrink(Plan[k], b) ELSE b
Steps(c) == [k \in DOMAIN Plan |-> Fits(Plan[k], Counts(c, k - 1))]
Left(c) == Counts(c, Len(Plan))
Editable(f) == f.box = "whole" /\ Spine(f) /\ f.st["types"] = "good" /\ f.st["more"] = "good" /\ \A x \in Slides(f) : f.st[x] # "gone"
=============================================================================
