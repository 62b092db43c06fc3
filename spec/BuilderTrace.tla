---------------------------- MODULE BuilderTrace ----------------------------
(* Judges recorded histories of two builders and a file.                            *)
EXTENDS DeckTrace, Reading

NoneB == [theme |-> <<>>, show |-> <<>>, print |-> <<>>, fonts |-> <<>>, sig |-> <<>>, any |-> FALSE]
WithThemeB(set, t) == [set EXCEPT !.theme = t.theme]
PlainBullet(t) == [m |-> "add", t |-> t, st |-> [k |-> "Bullet", c |-> ""], lvl |-> 0, f |-> <<>>]
LoadedB(sl) ==
  LET b == RBody(sl) IN
  [sl EXCEPT !.layout = "TitleAndContent", !.title = RTitle(sl), !.blank = (sl.blank \/ sl.layout = "Blank"), !.b = [i \in DOMAIN b |-> PlainBullet(b[i])],
             !.shapes = [i \in DOMAIN @ |-> [@[i] EXCEPT !.link = <<>>]], !.images = <<>>, !.cxns = <<>>, !.charts = <<>>, !.codes = <<>>, !.notes = <<>>, !.ink = <<>>]
BB == INSTANCE Builder WITH NoSettings <- NoneB, WithTheme <- WithThemeB, Loaded <- LoadedB

BStart(e) == BB!Init0
Told(o, p) == o.title = p.title /\ o.count = Len(p.slides) /\ o.titles = [i \in DOMAIN p.slides |-> p.slides[i].title]
Views(o, p) ==
  UNION { LET v == o.views[i] IN View1(p, <<"G02">>, v) \cup Settings(p.set, v.settings) : i \in DOMAIN o.views }

BJudge(e, s) ==
  LET op == e.op
      o == e.obs
      t == BB!Effect(s, op)
      bad ==
        IF o.panic THEN {"panic"} ELSE
        B(o.err = BB!Fails(s, op), "success")
        \cup (IF o.err # BB!Fails(s, op) THEN {} ELSE
                  B(Told(o.x, t.x) /\ Told(o.y, t.y), "reported")
             \cup B((op.name = "save" /\ ~o.err) \/ o.kept, "file-untouched")
             \cup B(o.exists = (t.file # <<>>), "file-exists")
             \cup B(o.same, "two-builds")
             \cup B(op.name \notin {"build", "bytes", "save"} \/ o.err \/ o.views # <<>>, "nothing-written")
             \cup Views(o, t[op.who]))
  IN [st |-> t, bad |-> {"A01:" \o c : c \in bad}, exp |-> [title |-> t[op.who].title, n |-> Len(t[op.who].slides)]]
=============================================================================
