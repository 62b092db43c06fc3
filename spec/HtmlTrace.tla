----------------------------- MODULE HtmlTrace -----------------------------
(* Judges the slides the HTML parser gives for rendered documents.          *)
EXTENDS TraceLib, Html

DStart(e) == [none |-> All(e.op.doc, e.op.o) = <<>>, want |-> Slides(e.op.doc, e.op.o)]
Ok(cond, name) == IF cond THEN {} ELSE {name}
Same(got, want) ==
  IF Len(got) # Len(want) THEN {"slide-count"} ELSE UNION {
    LET g == got[i]  w == want[i] IN
         Ok(w.title = "?" \/ g.title = w.title, "title")
    \cup Ok(g.tcol = TitleShow(w.tcol), "title-look")
    \cup Ok([j \in DOMAIN g.body |-> g.body[j].t] = [j \in DOMAIN w.body |-> w.body[j].t], "text")
    \cup Ok(Len(g.body) = Len(w.body) => \A j \in DOMAIN w.body : g.body[j].col = Show(w.body[j].col), "look")
    \cup Ok(g.content = [j \in DOMAIN w.body |-> w.body[j].t], "content")
    \cup Ok(g.tables = w.tables, "table")
    \cup Ok(g.codes = w.codes, "code")
    \cup Ok(g.notes = Join(w.notes), "notes")
    \cup Ok(g.pics = w.pics, "pictures")
    : i \in DOMAIN want}
DJudge(e, s) ==
  LET o == e.obs
      c == IF o.panic THEN {"panic"}
           ELSE IF s.none THEN Ok(o.err, "no-slides-accepted")
           ELSE IF o.err THEN {"error"} ELSE Same(o.slides, s.want)
  IN [st |-> s, bad |-> {"H01:" \o x : x \in c}, exp |-> [want |-> s.want]]
=============================================================================
