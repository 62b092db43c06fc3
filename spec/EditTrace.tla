------------------------------ MODULE EditTrace ------------------------------
(* Judges recorded editing sessions: after every operation, the session and the     *)
(* file it saves hold exactly the slides the operations imply.                      *)
EXTENDS DeckTrace, Edit

(* a slide: identity, abstract content (slide record of Deck), fingerprint of what the file holds for it *)
EStart(e) == e.op

TitleTexts(c) == [i \in DOMAIN ExpTitle(c) |-> ExpTitle(c)[i].t]
Learn(o, s) ==     \* initial state from the view of the file before it is opened
  [op |-> s, known |-> TRUE, next |-> Len(o.fps) + 1, other |-> Rng(o.other),
   slides |-> [i \in DOMAIN o.fps |-> [key |-> i, c |-> s.deck.slides[i], sha |-> o.fps[i].sha, links |-> o.fps[i].links, notes |-> [k \in DOMAIN o.fps[i].notes |-> o.fps[i].notes[k].sha]]]]

Keys(sl, ix) == [k \in DOMAIN ix |-> IF ix[k] = 0 THEN 0 ELSE IF ix[k] \in DOMAIN sl THEN sl[ix[k]].key ELSE -1]
NotesShas(o) == [k \in DOMAIN o.notes |-> o.notes[k].sha]
(* an updated slide may keep or lose the notes it had *)
NotesOk(x, o) == NotesShas(o) = x.notes \/ (x.sha = "new" /\ o.notes = <<>>)
NoNotes(v) == [v EXCEPT !.notes = <<>>]
(* twin: <<index, key of the original>> of the slide just duplicated; the copy of a slide linking to itself may link to either *)
LinksOk(sl, i, o, twin) == Len(o.links) = Len(sl[i].links) /\ \A k \in DOMAIN o.links :
     LET got == Keys(sl, o.links)[k] want == sl[i].links[k] IN
       got = want \/ (i = twin[1] /\ got = sl[i].key /\ want = twin[2])

NewSlide(k, c) == [key |-> k, c |-> c, sha |-> "new", links |-> <<>>, notes |-> <<>>]
Relearn(sl, o) == [i \in DOMAIN sl |-> [sl[i] EXCEPT !.sha = o.fps[i].sha, !.notes = NotesShas(o.fps[i]), !.links = Keys(sl, o.fps[i].links)]]

Pkgs(o) == {"E01:" \o c : c \in Closed(o.pkg)}
Seen(sl, o, twin) ==
  LET n == Len(sl) IN
       B(o.count = n, "E01:slide-count")
  \cup B(o.titles = [i \in DOMAIN sl |-> TitleTexts(sl[i].c)], "E01:session-slides")
  \cup B(o.beyond, "E01:slide-beyond-the-last")
  \cup Pkgs(o)
  \cup B(Len(o.fps) = n, "E01:saved-slide-count")
  \cup (IF Len(o.fps) # n THEN {} ELSE
          B(\A i \in 1..n : sl[i].sha \in {"new", o.fps[i].sha}, "E01:slide-content")
     \cup B(\A i \in 1..n : sl[i].sha = "new" \/ LinksOk(sl, i, o.fps[i], twin), "E01:slide-links")
     \cup B(\A i \in 1..n : NotesOk(sl[i], o.fps[i]), "E01:notes")
     \cup B(\A i \in 1..n : \A k \in DOMAIN o.fps[i].notes : o.fps[i].notes[k].back = i, "E01:notes-of-another-slide"))

NewAt(op, n) == CASE op.name = "add" -> n + 1 [] OTHER -> op.i + 1
EditLine(op, s, o) ==
  LET n == Len(s.slides)
      ok == EValid(op, n)
      isNew == ok /\ op.name \in {"add", "insert", "update"}
      x == IF op.name \in {"add", "insert", "update"} THEN NewSlide(s.next, op.c) ELSE [key |-> s.next]
      sl == EApply(op, s.slides, x)
      twin == IF ok /\ op.name = "dup" THEN <<op.i + 2, s.slides[op.i + 1].key>> ELSE <<0, 0>>
      bad == B(o.err = ~ok, "E01:result") \cup B(ok => o.ret = ERet(op, n), "E01:index")
             \cup Seen(sl, o, twin)
             \cup B(Rng(o.other) = s.other, "E01:other-part-changed")
             \cup (IF ~isNew THEN {} ELSE IF Len(o.new) # 1 THEN {"E01:new-slide-missing"} ELSE
                   LET v == NoNotes(o.new[1]) IN
                     {"E01:new-" \o c : c \in Texts(op.c, v, <<>>) \cup Format(op.c, v) \cup TableOk(op.c, v)}
                     \cup B(op.name = "update" \/ v.layout = LayoutNo[op.c.layout], "E01:new-layout"))
  IN [st |-> IF bad = {} THEN [s EXCEPT !.slides = Relearn(sl, o),
                                        !.next = IF ok /\ op.name \in {"add", "insert", "dup"} THEN @ + 1 ELSE @] ELSE s,
      bad |-> bad, exp |-> [count |-> Len(sl), keys |-> [i \in DOMAIN sl |-> sl[i].key]]]

EJudge(e, s) ==
  LET o == e.obs IN
  IF o.panic THEN [st |-> s, bad |-> {"E01:panic"}, exp |-> "no panic"]
  ELSE IF e.op.name = "open"
  THEN IF o.err THEN [st |-> s, bad |-> {"E01:open"}, exp |-> "opens"]
       ELSE LET w == IF "was" \in DOMAIN o THEN o.was ELSE [fps |-> o.fps, other |-> o.other]
                bad == B(Len(w.fps) = Len(s.deck.slides), "E01:opened-slides") IN
            IF bad # {} THEN [st |-> s, bad |-> bad, exp |-> "slides of the deck"]
            ELSE LET q == Learn(w, s)
                     dropped == [q EXCEPT !.slides = [i \in DOMAIN @ |-> [@[i] EXCEPT !.links = [k \in DOMAIN @ |-> IF @[k] = -1 THEN 0 ELSE @[k]]]]] IN   \* links to slides not listed lead nowhere
                 [st |-> dropped, bad |-> Seen(dropped.slides, o, <<0, 0>>) \cup B(Rng(o.other) = q.other, "E01:other-part-changed"), exp |-> "initial view"]
  ELSE EditLine(e.op, s, o)
=============================================================================
