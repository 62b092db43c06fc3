----------------------------- MODULE FaultsTrace -----------------------------
(* Judges what every way to read a file made of a file that may hold anything.            *)
(* The state is the file: its container, the status of its parts, and what its slides     *)
(* read as before it was damaged.                                                          *)
EXTENDS TraceLib, Faults

BStart(e) == [f |-> [box |-> e.op.box, n |-> e.op.n, st |-> e.op.st], was |-> e.op.was, entries |-> e.op.entries, title |-> e.op.title]
Ok(cond, name) == IF cond THEN {} ELSE {name}

Slides1(o, s) ==
  IF ~Spine(s.f) \/ s.f.box # "whole" THEN {}
  ELSE Ok(Len(o.slides) = s.f.n, "number-of-slides")
  \cup Ok(\A i \in 1..s.f.n : i \in DOMAIN o.slides =>
          CASE Reading(s.f, i) = "as-before" -> o.slides[i] = s.was[i]
            [] Reading(s.f, i) = "error" -> o.slides[i] = "err"
            [] OTHER -> TRUE, "reading-of-a-slide")
Listed(o) == \A i \in DOMAIN o.slides : o.slides[i] # "err"

File(e, o, s) ==
  LET w == e.op.what IN
  IF o.end = "panic" THEN {"panic"} ELSE IF o.end = "hang" THEN {"hang"}
  ELSE Ok(o.end \in Ends(s.f, w), IF o.end = "ok" THEN "damage-accepted" ELSE "readable-file-refused")
  \cup Ok(~o.changed, "input-changed")
  \cup (IF o.end # "ok" THEN {}
        ELSE CASE w = "package" -> Ok(s.f.box # "whole" \/ o.n = s.entries, "entries")
               [] w = "reader" -> Slides1(o, s) \cup Ok(o.beyond, "slide-beyond-the-last")
                    \cup Ok(o.n > Len(o.slides) \/ (o.all = Listed(o) /\ o.text = Listed(o)), "all-slides")
                    \cup Ok(s.f.box # "whole" \/ s.f.st["core"] # "good" \/ o.title = s.title, "title")
               [] w = "editor" -> (IF \E x \in Classes(s.f.n) : s.f.st[x] = "gone" THEN {} ELSE Slides1(o, s) \cup Ok(o.beyond, "slide-beyond-the-last"))
                    \cup Ok(Editable(s.f) => o.ops = Steps(s.f.n) /\ o.left = Left(s.f.n) /\ o.again = o.left, "editing")
               [] w = "import" -> Ok(Spine(s.f) /\ s.f.box = "whole" => o.n = s.f.n, "number-of-slides")
               [] w = "validate" -> Ok(o.valid \in Verdicts(s.f), "verdict")
               [] w = "compress" -> Ok(~o.differ, "compressing-in-memory-differs")
               [] OTHER -> {})

Text(e, o) == IF o.end = "panic" THEN {"panic"} ELSE IF o.end = "hang" THEN {"hang"} ELSE {}

BJudge(e, s) ==
  LET c == IF e.op.name = "text" THEN Text(e, e.obs) ELSE File(e, e.obs, s)
  IN [st |-> s, bad |-> {"B01:" \o x : x \in c}, exp |-> IF e.op.name = "text" THEN {"ok", "err"} ELSE Ends(s.f, e.op.what)]
=============================================================================
