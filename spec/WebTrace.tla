------------------------------ MODULE WebTrace ------------------------------
(* Judges the presentation made of a page.                                                   *)
EXTENDS TraceLib, Web
WStart(e) == e.op
Ok(cond, name) == IF cond THEN {} ELSE {name}
WJudge(e, s) ==
  LET b == e.obs
      yes == HasContent(s.p, s.o)
      want == Slides(s.p, s.o)
      bad == IF b.panic THEN {"W01:panic"}
             ELSE IF ~yes THEN Ok(b.err, "W01:empty-page-accepted")
             ELSE IF b.err THEN {"W01:refused"}
             ELSE IF ~b.sound THEN {"W01:not-a-presentation"}
             ELSE Ok(b.title = Title(s.p, s.o), "W01:deck-title")
             \cup (IF Len(b.slides) # Len(want) THEN {"W01:slide-count"} ELSE
                  Ok(\A i \in DOMAIN want : b.slides[i].t = want[i].t, "W01:headings")
             \cup Ok(\A i \in DOMAIN want : i > 1 => b.slides[i].b = want[i].b, "W01:bullets")
             \cup Ok(want = <<>> \/ b.slides[1].b = want[1].b, "W01:front")
             \cup Ok(\A i \in DOMAIN want : b.slides[i].layout = (IF i = 1 THEN 1 ELSE 2), "W01:layout")
             \cup Ok(\A i \in DOMAIN want : ~b.slides[i].more, "W01:something-else"))
  IN [st |-> s, bad |-> bad, exp |-> IF yes THEN want ELSE <<>>]
=============================================================================
