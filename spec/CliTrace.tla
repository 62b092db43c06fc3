------------------------------ MODULE CliTrace ------------------------------
(* Judges what the real command did: its exit code, the files it changed, what it printed.  *)
EXTENDS TraceLib, Cli

CSet(q) == {q[i] : i \in DOMAIN q}
CStart(e) == [fs |-> e.op.fs, dirs |-> CSet(e.op.dirs)]
Ok(cond, name) == IF cond THEN {} ELSE {name}
SameDeck(got, want) ==
  IF got.k # "deck" THEN {"C01:not-a-presentation"} ELSE
       Ok(got.title = want.title, "C01:deck-title")
  \cup (IF Len(got.slides) # Len(want.slides) THEN {"C01:slide-count"} ELSE
       Ok(\A i \in DOMAIN want.slides : got.slides[i].t = want.slides[i].t, "C01:slide-titles")
  \cup Ok(\A i \in DOMAIN want.slides : got.slides[i].b = want.slides[i].b, "C01:bullets")
  \cup Ok(\A i \in DOMAIN want.slides : got.slides[i].tab = want.slides[i].tab, "C01:tables")
  \cup Ok(\A i \in DOMAIN want.slides : got.slides[i].o = want.slides[i].o, "C01:code")
  \cup Ok(\A i \in DOMAIN want.slides : got.slides[i].pics = want.slides[i].pics, "C01:pictures"))
Same(got, want) == IF want.k = "deck" THEN SameDeck(got, want)
                   ELSE IF got.k # want.k THEN {"C01:wrong-format"}
                   ELSE IF want.k = "pdf" THEN Ok(got.sound, "C01:pdf-broken") \cup Ok(Len(got.pages) = Len(want.pages) /\ \A i \in DOMAIN want.pages : want.pages[i] \in {"", got.pages[i]}, "C01:pages")
                   ELSE Ok(got = want, "C01:content")

Exit(code, o, c) ==
  IF code \notin {0, 1, 2} THEN {"C01:crash"}
  ELSE IF c.name = "usage" THEN Ok(code = 2, "C01:usage")
  ELSE IF o.ok THEN Ok(code = 0, "C01:refused") ELSE Ok(code = 1, "C01:accepted")

(* ch: the changed files [n, v], gone: files that are no more *)
CJudge(e, s) ==
  LET c == e.op
      b == e.obs
      o == Outcome(s, c)
      want == {o.ch[i].n : i \in DOMAIN o.ch}
      got == {b.ch[i].n : i \in DOMAIN b.ch}
      made == {c.out[i].d : i \in DOMAIN c.out} \cup {Path(c.out[i]) : i \in DOMAIN c.out}
      k == IF c.in = <<>> THEN "none" ELSE Kind(s.fs, c.in[1])
      bad == Exit(b.exit, o, c)
             \cup Ok(b.gone = <<>>, "C01:file-lost")
             \cup Ok(got \subseteq want \cup (IF c.name = "export" /\ Format(c) = "png" /\ ~o.ok THEN got ELSE {}), "C01:other-file-changed")
             \cup Ok(b.exit # 0 \/ want \subseteq (got \cup CSet(b.same)), "C01:nothing-written")
             \cup (IF b.exit # 0 \/ ~o.ok THEN {} ELSE UNION {Same(b.ch[i].v, Val(PutAll(<<>>, o.ch), b.ch[i].n)) : i \in {j \in DOMAIN b.ch : b.ch[j].n \in want}})
             \cup Ok(b.tmp = 0, "C01:temporary-files-left")
             \cup Ok(CSet(b.dirs) \subseteq s.dirs \cup made, "C01:directory-made")
             \cup Ok(b.exit = 0 \/ b.said, "C01:silent-failure")
             \cup (IF c.name = "validate" /\ c.json /\ k # "none" THEN Ok(b.json = (IF o.ok THEN "valid" ELSE "invalid"), "C01:report") ELSE {})
             \cup (IF c.name = "info" /\ k = "deck" THEN
                     LET v == Val(s.fs, c.in[1]) IN Ok(b.info = <<v.title, Dec(Len(v.slides))>>, "C01:info") ELSE {})
  IN [st |-> [fs |-> After(s, c).fs, dirs |-> CSet(b.dirs)], bad |-> bad, exp |-> [ok |-> o.ok, ch |-> o.ch, dirs |-> s.dirs]]
=============================================================================
