---------------------------- MODULE ExportTrace ----------------------------
(* Judges the blocks read from the HTML and the Markdown that the real exporters write.     *)
EXTENDS TraceLib, Export

DStart(e) == e.op
Ok(cond, name) == IF cond THEN {} ELSE {name}
Pick(bs, K) == SelectSeq(bs, LAMBDA b : b.k \in K)
(* one clause per kind of block, so that a finding names what is wrong *)
Same(got, want, f) ==
  IF got = want THEN {} ELSE
  LET c ==  Ok(Pick(got, {"x", "p", "html"}) = Pick(want, {"x", "p", "html"}), "markup")
       \cup Ok(Pick(got, {"title", "front"}) = Pick(want, {"title", "front"}), "deck-title")
       \cup Ok(Pick(got, {"slide", "rule"}) = Pick(want, {"slide", "rule"}), "slides")
       \cup Ok(Pick(got, {"h"}) = Pick(want, {"h"}), "title")
       \cup Ok(Pick(got, {"li"}) = Pick(want, {"li"}), "bullets")
       \cup Ok(Pick(got, {"table"}) = Pick(want, {"table"}), "table")
       \cup Ok(Pick(got, {"code"}) = Pick(want, {"code"}), "code")
       \cup Ok(Pick(got, {"notes", "quote", "label"}) = Pick(want, {"notes", "quote", "label"}), "notes")
       \cup Ok(Pick(got, {"img"}) = Pick(want, {"img"}), "pictures")
       \cup Ok(Pick(got, {"nav"}) = Pick(want, {"nav"}), "navigation")
  IN {f \o x : x \in IF c = {} THEN {"order"} ELSE c}
DJudge(e, s) ==
  LET want == IF e.op.name = "html" THEN HtmlDeck(s.d, s.html) ELSE MdDeck(s.d, s.md)
      f == "X01:" \o e.op.name \o "-"
  IN [st |-> s, exp |-> want,
      bad |-> IF e.obs.panic THEN {f \o "panic"} ELSE IF e.obs.err THEN {f \o "error"} ELSE Same(e.obs.blocks, want, f)]
=============================================================================
