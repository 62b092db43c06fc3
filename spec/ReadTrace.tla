----------------------------- MODULE ReadTrace -----------------------------
(* Judges what reader, editor and importer report for a generated presentation,     *)
(* before and after chains of importing and generating again.                       *)
EXTENDS TraceLib, Reading

RStart(e) == e.op.deck
Ok(cond, name) == IF cond THEN {} ELSE {name}
Rg(s) == {s[i] : i \in DOMAIN s}
ShapeTexts(s) == NonEmpty([i \in DOMAIN s.shapes |-> Get(s.shapes[i].t, "")])

Slides(o, d) ==
  IF Len(o.slides) # Len(d.slides) THEN {} ELSE
       Ok(\A i \in DOMAIN d.slides : o.slides[i].title = RTitle(d.slides[i]), "slide-title")
  \cup Ok(\A i \in DOMAIN d.slides : o.slides[i].body = RBody(d.slides[i]), "bullets")
  \cup Ok(\A i \in DOMAIN d.slides : o.slides[i].tables = RTables(d.slides[i]), "table")
  \cup Ok(\A i \in DOMAIN d.slides : LET x == ShapeTexts(d.slides[i]) IN IF d.slides[i].codes = <<>> THEN o.slides[i].shapes = x ELSE Rg(x) \subseteq Rg(o.slides[i].shapes), "shape-text")
  \cup Ok(\A i \in DOMAIN d.slides : {t \in {RTitle(d.slides[i])} \cup Rg(RBody(d.slides[i])) : t # ""} \subseteq Rg(o.slides[i].all), "all-text")

Imported(o, d) ==
  IF Len(o.slides) # Len(d.slides) THEN {} ELSE
       Ok(\A i \in DOMAIN d.slides : o.slides[i].title = RTitle(d.slides[i]), "slide-title")
  \cup Ok(\A i \in DOMAIN d.slides : o.slides[i].body = RBody(d.slides[i]), "bullets")

RJudge(e, d) ==
  LET o == e.obs
      n == Len(d.slides)
      c == IF o.panic THEN {"panic"} ELSE IF o.err THEN {"error"}
           ELSE CASE e.op.name = "reader" -> Ok(o.title = d.title, "title") \cup Ok(o.count = n /\ o.info = n /\ Len(o.slides) = n, "slide-count") \cup Slides(o, d)
                         \cup Ok(o.same, "all-slides-at-once") \cup Ok(o.beyond, "slide-beyond-the-last")
                         \cup Ok(\A i \in DOMAIN d.slides : {t \in {RTitle(d.slides[i])} \cup Rg(RBody(d.slides[i])) : t # ""} \subseteq Rg(o.text), "extracted-text")
                         \cup Ok(e.op.core = <<>> \/ o.core = e.op.core, "document-properties")
                  [] e.op.name = "editor" -> Ok(o.count = n /\ Len(o.slides) = n, "slide-count") \cup Slides(o, d) \cup Ok(o.beyond, "slide-beyond-the-last")
                  [] e.op.name = "import" -> Ok(o.title = d.title, "title") \cup Ok(o.count = n /\ Len(o.slides) = n, "slide-count") \cup Imported(o, d)
                  [] OTHER -> {}
  IN [st |-> d, bad |-> {"R01:" \o e.op.name \o "-" \o x : x \in c}, exp |-> [hop |-> e.op.hop]]
=============================================================================
