----------------------------- MODULE DeckTrace -----------------------------
(* Judges generated files (projected to package and slide views) against the deck *)
(* they were generated from.  Clauses are prefixed with the property they belong  *)
(* to; op.want of the reset line says which properties are judged.                *)
EXTENDS TraceLib, Deck, Package

DStart(e) == e.op

(* the observed record restricted to the expected fields *)
Like(o, x) == [k \in DOMAIN x |-> o[k]] = x
AllLike(os, xs) == Len(os) = Len(xs) /\ \A i \in DOMAIN xs : Like(os[i], xs[i])
AllTxt(os, xs) == [i \in DOMAIN os |-> os[i].t] = [i \in DOMAIN xs |-> xs[i].t]
B(cond, name) == IF cond THEN {} ELSE {name}

(* what a cell must look like; an empty cell has no run whose formatting could matter *)
CellOk(o, c) ==
  LET x == ExpCell(c) IN
  /\ o.t = x.t /\ o.gs = x.gs /\ o.rs = x.rs /\ o.hm = x.hm /\ o.vm = x.vm
  /\ ~(x.hm \/ x.vm) => o.anchor = x.anchor /\ o.bg = x.bg      \* a merged-away cell is covered
  /\ o.t # "" => o.algn = x.algn /\ o.b = x.b /\ o.i = x.i /\ o.u = x.u /\ o.color = x.color /\ o.font = x.font /\ (x.sz = -2 \/ o.sz = 100 * x.sz) /\ (x.sz = -2 => o.sz \in {-1, 1800})
CellTexts(rows) == [r \in DOMAIN rows |-> [c \in DOMAIN rows[r].cells |-> rows[r].cells[c].t]]

LinkOf(o) == [ty |-> o.ty, ext |-> o.ext, tg |-> o.tg, action |-> o.action, tip |-> o.tip, hl |-> o.hl]
LinkOk(o, lk, sp) ==
  LET x == ExpLink(lk, sp) IN (o.ty = x.ty \/ (lk.k = "slide" /\ o.ty = "hyperlink")) /\ o.ext = x.ext /\ o.tg = x.tg /\ (lk.k \in DOMAIN Jump => o.action = x.action)

(* an empty line of a code block may be written as one space *)
LinesOk(os, xs) == Len(os) = Len(xs) /\ \A k \in DOMAIN xs : os[k] = xs[k] \/ (xs[k] = "" /\ os[k] = " ")

(* ---------------------------------------------------------------- texts: G02 *)
Texts(s, o, sp) ==
  LET bl == ExpBodies(s) IN
       B(AllTxt(o.title, ExpTitle(s)), "G02:title")
  \cup B(Flat([i \in DOMAIN o.bodies |-> [j \in DOMAIN o.bodies[i] |-> o.bodies[i][j].t]]) = Flat([i \in DOMAIN bl |-> [j \in DOMAIN bl[i] |-> bl[i][j].t]]), "G02:bullets")
  \cup B([i \in DOMAIN o.tables |-> CellTexts(o.tables[i].rows)] = [i \in DOMAIN s.table |-> CellTexts(s.table[i].rows)], "G02:table-cells")
  \cup B([i \in DOMAIN o.shapes |-> o.shapes[i].lines] = [i \in DOMAIN s.shapes |-> s.shapes[i].t], "G02:shape-text")
  \cup B(Len(o.codes) = Len(s.codes) /\ \A i \in DOMAIN o.codes : LinesOk(o.codes[i].lines, s.codes[i].lines), "G02:code")
  \cup B(Len(o.notes) = Len(s.notes) /\ \A i \in DOMAIN o.notes : o.notes[i].t = s.notes, "G02:notes")
  \cup B(Len(o.charts) = Len(s.charts) /\ \A i \in DOMAIN o.charts : Len(o.charts[i].c) = 1 /\
           LET v == o.charts[i].c[1] c == s.charts[i] IN
             /\ v.title = c.title
             /\ (XY(c.ty) \/ c.series = <<>> \/ v.cats.v = c.cats)
             /\ [k \in DOMAIN v.plots |-> [j \in DOMAIN v.plots[k].ser |-> v.plots[k].ser[j].name]] = [k \in DOMAIN Plots(c) |-> [j \in DOMAIN Plots(c)[k].s |-> Plots(c)[k].s[j].name]], "G02:chart-texts")
  \cup B(Len(o.pics) = Len(s.images) /\ \A i \in DOMAIN o.pics : s.images[i].alt = <<>> \/ o.pics[i].descr = s.images[i].alt[1], "G02:image-alt-text")
  \cup B(Len(o.shapes) = Len(s.shapes) /\ \A i \in DOMAIN o.shapes : Len(o.shapes[i].link) = Len(s.shapes[i].link) /\
           \A j \in DOMAIN s.shapes[i].link : o.shapes[i].link[j].tip = s.shapes[i].link[j].tip /\ LinkOk(o.shapes[i].link[j], s.shapes[i].link[j], sp), "G02:hyperlink")
  \cup B([i \in DOMAIN o.cxns |-> o.cxns[i].label] = [i \in DOMAIN s.cxns |-> s.cxns[i].label], "G02:connector-label")

DeckTexts(d, v) ==
       B(v.title = <<d.title>> \/ (d.title = "" /\ v.title = <<>>), "G02:presentation-title")
  \cup B(Len(v.slides) = Len(d.slides) /\ v.broken = 0, "G02:slide-count")
  \cup B(v.app.slides = Len(d.slides) /\ v.app.notes = Cardinality({i \in DOMAIN d.slides : d.slides[i].notes # <<>>}), "G02:document-counts")
  \cup B(Len(v.app.titles) >= Len(d.slides) /\ SubSeq(v.app.titles, Len(v.app.titles) - Len(d.slides) + 1, Len(v.app.titles))
           = [i \in DOMAIN d.slides |-> IF d.slides[i].blank THEN "Slide " \o ToString(i) ELSE d.slides[i].title], "G02:document-slide-titles")

(* -------------------------------------------------------------- binding: G03 *)
InkOk(o, k) ==
  /\ Len(o.st) = Len(k)
  /\ \A i \in DOMAIN k : o.st[i].c = "#" \o k[i].c /\ o.st[i].w = k[i].w /\ o.st[i].tip = k[i].tip /\ o.st[i].pts = k[i].pts
Bind(s, o, sp) ==
       B([i \in DOMAIN o.pics |-> o.pics[i].sha] = [i \in DOMAIN s.images |-> s.images[i].sha] /\ \A i \in DOMAIN o.pics : o.pics[i].ty = "image", "G03:picture-bytes")
  \cup B(Len(o.charts) = Len(s.charts) /\ \A i \in DOMAIN o.charts : Len(o.charts[i].c) = 1 /\ ChartClauses(s.charts[i], o.charts[i].c[1]) = {}, "G03:chart")
  \cup B(\A i \in DOMAIN o.charts : Len(o.charts[i].c) = 1 => o.charts[i].c[1].embOk, "G03:chart-workbook")
  \cup B(Len(o.ink) = (IF s.ink = <<>> THEN 0 ELSE 1) /\ \A i \in DOMAIN o.ink : InkOk(o.ink[i], s.ink[i]), "G03:ink")
  \cup B(Len(o.shapes) = Len(s.shapes) /\ \A i \in DOMAIN o.shapes : Len(o.shapes[i].link) = Len(s.shapes[i].link) /\
           \A j \in DOMAIN s.shapes[i].link : LinkOk(o.shapes[i].link[j], s.shapes[i].link[j], sp), "G03:hyperlink")
  \cup B(Len(o.notes) = Len(s.notes) /\ \A i \in DOMAIN o.notes : o.notes[i].back = <<o.part>> /\ o.notes[i].masters = 1, "G03:notes")
  \cup B(Len(o.notes) = Len(s.notes) /\ \A i \in DOMAIN o.notes : o.notes[i].t = s.notes, "G03:notes-of-another-slide")
  \cup B(o.layouts = 1 /\ o.layout = LayoutNo[s.layout], "G03:layout")
Apart(v) ==   \* no part is shared between slides or frames
  LET ch == Flat([i \in DOMAIN v.slides |-> [j \in DOMAIN v.slides[i].charts |-> v.slides[i].charts[j].part]])
      em == Flat([i \in DOMAIN v.slides |-> Flat([j \in DOMAIN v.slides[i].charts |-> [k \in DOMAIN v.slides[i].charts[j].c |-> v.slides[i].charts[j].c[k].emb]])])
      nt == Flat([i \in DOMAIN v.slides |-> [j \in DOMAIN v.slides[i].notes |-> v.slides[i].notes[j].part]])
      ik == Flat([i \in DOMAIN v.slides |-> [j \in DOMAIN v.slides[i].ink |-> v.slides[i].ink[j].part]])
      pt == [i \in DOMAIN v.slides |-> v.slides[i].part] IN
  B(Distinct(ch), "G03:chart-part-shared") \cup B(Distinct(em), "G03:workbook-shared") \cup B(Distinct(nt), "G03:notes-part-shared")
  \cup B(Distinct(ik), "G03:ink-part-shared") \cup B(Distinct(pt), "G03:slide-part-shared")

(* ---------------------------------------------------------------- media: G05 *)
Media(d, v) ==
  LET m == MediaOf(d)
      pics == Flat([i \in DOMAIN v.slides |-> v.slides[i].pics])
      imgs == Flat([i \in DOMAIN d.slides |-> d.slides[i].images])
      no == [i \in DOMAIN imgs |-> CHOOSE k \in DOMAIN m : m[k] = [sha |-> imgs[i].sha, ext |-> imgs[i].ext]] IN
       B(Len(pics) = Len(imgs), "G05:picture-count")
  \cup B(Len(pics) = Len(imgs) => \A i, j \in DOMAIN pics : (pics[i].part = pics[j].part) <=> (no[i] = no[j]), "G05:sharing")
  \cup B(Len(pics) = Len(imgs) => \A i \in DOMAIN pics : pics[i].part = MediaName(m[no[i]], no[i]), "G05:numbering")
  \cup B({x.n : x \in Rng(v.media)} = {MediaName(m[k], k) : k \in DOMAIN m}, "G05:media-parts")
  \cup B(\A x \in Rng(v.media) : \E k \in DOMAIN m : x.n = MediaName(m[k], k) /\ x.sha = m[k].sha, "G05:media-bytes")

(* --------------------------------------------------------------- charts: G06 *)
ChartsOk(s, o) ==
  IF Len(o.charts) # Len(s.charts) THEN {"G06:chart-count"} ELSE
  UNION { LET c == s.charts[i] v == o.charts[i] IN
            B(v.x = c.x /\ v.y = c.y /\ v.cx = c.w /\ v.cy = c.h, "G06:frame")
            \cup (IF Len(v.c) = 1 THEN {"G06:" \o k : k \in ChartClauses(c, v.c[1])} ELSE {"G06:no-chart-part"}) : i \in DOMAIN s.charts }

(* ---------------------------------------------------------------- tables: G07 *)
TableOk(s, o) ==
  IF Len(o.tables) # Len(s.table) THEN {"G07:table-count"} ELSE
  UNION { LET t == s.table[i] v == o.tables[i] IN
            B(v.x = t.x /\ v.y = t.y, "G07:position") \cup B(v.cols = t.cols, "G07:grid")
            \cup B(v.cx = Sum(t.cols), "G07:frame-width")
            \cup B(Len(v.rows) = Len(t.rows) /\ \A r \in DOMAIN t.rows : t.rows[r].h = <<>> \/ v.rows[r].h = t.rows[r].h[1], "G07:rows")
            \cup (IF Len(v.rows) = Len(t.rows) /\ \A r \in DOMAIN t.rows : Len(v.rows[r].cells) = Len(t.rows[r].cells)
                  THEN B(\A r \in DOMAIN t.rows : \A c \in DOMAIN t.rows[r].cells : CellOk(v.rows[r].cells[c], t.rows[r].cells[c]), "G07:cell")
                  ELSE {"G07:cell-count"}) : i \in DOMAIN s.table }

(* ------------------------------------------------- formatting and geometry: G08 *)
ParaOk(o, x) == IF x.t = "" THEN o.t = "" /\ o.lvl = x.lvl /\ o.bu = x.bu ELSE Like(o, x)
Margins(ps) == \A i, j \in DOMAIN ps : (ps[i].lvl < ps[j].lvl => ps[i].marL < ps[j].marL) /\ (ps[i].lvl = ps[j].lvl => ps[i].marL = ps[j].marL)
Format(s, o) ==
  LET bl == SelectSeq(ExpBodies(s), LAMBDA b : b # <<>>)
      got == SelectSeq(o.bodies, LAMBDA b : b # <<>>) IN
       B(Len(o.title) = Len(ExpTitle(s)) /\ \A i \in DOMAIN o.title : IF o.title[i].t = "" THEN o.title[i].algn = ExpTitle(s)[i].algn ELSE Like(o.title[i], ExpTitle(s)[i]), "G08:title")
  \cup B(Len(got) = Len(bl) /\ \A i \in DOMAIN bl : Len(got[i]) = Len(bl[i]) /\ \A j \in DOMAIN bl[i] : ParaOk(got[i][j], bl[i][j]), "G08:bullets")
  \cup B(\A i \in DOMAIN got : Margins(got[i]), "G08:bullet-indent")
  \cup B(AllLike(o.shapes, Map(ExpShape, s.shapes)), "G08:shape")
  \cup B(Len(o.shapes) = Len(s.shapes) => \A i \in DOMAIN s.shapes : s.shapes[i].id = <<>> \/ o.shapes[i].id = s.shapes[i].id[1], "G08:shape-id")
  \cup B(AllLike(o.cxns, Map(ExpCxn, s.cxns)), "G08:connector")
  \cup B(Len(o.pics) = Len(s.images) /\ \A i \in DOMAIN o.pics : LET p == o.pics[i] q == s.images[i] IN p.x = q.x /\ p.y = q.y /\ p.cx = q.w /\ p.cy = q.h /\ p.crop = q.crop, "G08:picture-geometry")
  \cup B(Len(o.pics) = Len(s.images) /\ \A i \in DOMAIN o.pics : Rng(o.pics[i].fx) = Rng(s.images[i].fx), "G08:picture-effects")
  \cup B([i \in DOMAIN o.codes |-> <<o.codes[i].x, o.codes[i].y, o.codes[i].cx, o.codes[i].cy>>] = [i \in DOMAIN s.codes |-> <<s.codes[i].x, s.codes[i].y, s.codes[i].w, s.codes[i].h>>], "G08:code-geometry")
  \cup B(o.trans = ExpTrans(s), "G08:transition")

(* -------------------------------------------------------------- settings: G09 *)
YN(b) == IF b THEN "1" ELSE "0"
Truth(a, deflt) == IF a = "-" THEN deflt ELSE a \in {"1", "true"}       \* an absent attribute has its schema default
ShowOk(x, v) ==
  /\ Truth(v.loop, FALSE) = Get(x.loop, FALSE)
  /\ Truth(v.showNarration, FALSE) = ~Get(x.nonarr, FALSE)
  /\ Truth(v.showAnimation, TRUE) = ~Get(x.noanim, FALSE)
  /\ Truth(v.useTimings, TRUE) = Get(x.timings, FALSE)
  /\ v.media = Get(x.media, TRUE)
  /\ LET t == Get(x.type, "Speaker") IN
       Rng(v.kids) \cap {"present", "kiosk", "browse"} = {IF t = "Speaker" THEN "present" ELSE IF t = "Kiosk" THEN "kiosk" ELSE "browse"}
  /\ LET r == Get(x.range, [k |-> "all", a |-> 0, b |-> 0, ids |-> <<>>]) IN
       Rng(v.kids) \ {"present", "kiosk", "browse"} = (IF r.k = "all" THEN {"sldAll"} ELSE {"sldRg:" \o ToString(r.a) \o ":" \o ToString(r.b)})
  /\ (x.pen # <<>> => v.pen = x.pen[1])

(* faces of the embedded fonts, in order of first use *)
RECURSIVE Faces(_, _)
Faces(s, acc) == IF s = <<>> THEN acc ELSE Faces(Tail(s), IF Head(s).face \in Rng(acc) THEN acc ELSE Append(acc, Head(s).face))
StyleTag == [Regular |-> "regular", Bold |-> "bold", Italic |-> "italic", BoldItalic |-> "boldItalic"]
FontsOk(fs, v) ==
  /\ [i \in DOMAIN v |-> v[i].face] = Faces(fs, <<>>)
  /\ \A i \in DOMAIN v : Rng(v[i].st) = { <<StyleTag[f.style], f.sha>> : f \in {q \in Rng(fs) : q.face = v[i].face} }
  /\ \A i \in DOMAIN v : \E f \in Rng(fs) : f.face = v[i].face /\ v[i].charset \in {f.charset} \cup (IF f.charset = "-" THEN {"0"} ELSE {})
       /\ v[i].panose = Get(f.panose, "-") /\ (f.pitch = <<>> \/ v[i].pitch = f.pitch[1])

Bag(s, k) == LET m == SelectSeq(s, LAMBDA x : x[1] = k) IN IF m = <<>> THEN <<>> ELSE m[1][2]
HashUri == [Sha256 |-> "http://www.w3.org/2001/04/xmlenc#sha256", Sha384 |-> "http://www.w3.org/2001/04/xmldsig-more#sha384", Sha512 |-> "http://www.w3.org/2001/04/xmlenc#sha512", Sha1 |-> "http://www.w3.org/2000/09/xmldsig#sha1"]
CommitUri == [Created |-> "http://uri.etsi.org/01903/v1.2.2#ProofOfCreation", Approved |-> "http://uri.etsi.org/01903/v1.2.2#ProofOfApproval", Reviewed |-> "http://uri.etsi.org/01903/v1.2.2#ProofOfReview"]
Slots == <<"dk1", "lt1", "dk2", "lt2", "accent1", "accent2", "accent3", "accent4", "accent5", "accent6", "hlink", "folHlink">>
Settings(x, v) ==
       B(Len(v.show) = Len(x.show) /\ \A i \in DOMAIN x.show : ShowOk(x.show[i], v.show[i]), "G09:slide-show")
  \cup B(Len(v.theme) = 1 /\ [i \in DOMAIN v.theme[1].cols |-> v.theme[1].cols[i][1]] = Slots, "G09:theme-slots")
  \cup (IF x.theme = <<>> \/ Len(v.theme) # 1 THEN {} ELSE
          LET t == x.theme[1] o == v.theme[1] IN
          B(t.colors = <<>> \/ [i \in DOMAIN o.cols |-> o.cols[i][2]] = t.colors[1], "G09:theme-colors")
          \cup B((t.major = <<>> \/ o.major = t.major[1]) /\ (t.minor = <<>> \/ o.minor = t.minor[1]), "G09:theme-fonts")
          \cup B(t.preset # "" \/ o.name = t.name, "G09:theme-name"))
  \cup B((Len(v.fonts) = 0 /\ x.fonts = <<>> /\ v.fontLists = 0) \/ (FontsOk(x.fonts, v.fonts) /\ v.fontLists = 1), "G09:embedded-fonts")
  \cup (LET ho == x.print # <<>> /\ Get(x.print[1].what, "Slides") = "Handouts" IN
          B(Len(v.handout) = (IF ho THEN 1 ELSE 0), "G09:handout-master")
          \cup (IF ho /\ Len(v.handout) = 1 THEN LET p == x.print[1] h == v.handout[1] IN
                 B(h.hdr = p.header /\ h.ftr = p.footer /\ h.dt = (IF Get(p.date, FALSE) THEN 1 ELSE 0) /\ h.sldNum = (IF Get(p.nums, FALSE) THEN 1 ELSE 0), "G09:handout-content")
               ELSE {}))
  \cup (IF x.print = <<>> THEN B(v.master = [hdr |-> 0, ftr |-> <<>>, dt |-> 0, sldNum |-> 0], "G09:master-footers")
        ELSE LET p == x.print[1] IN
          B(v.master = [hdr |-> Len(p.header), ftr |-> p.footer, dt |-> IF Get(p.date, FALSE) THEN 1 ELSE 0, sldNum |-> IF Get(p.nums, FALSE) THEN 1 ELSE 0], "G09:master-footers"))
  \cup B(Len(v.sig) = Len(x.sig) /\ v.sigRels = Len(x.sig), "G09:signature-parts")
  \cup (IF x.sig = <<>> \/ Len(v.sig) # 1 THEN {} ELSE
          LET g == x.sig[1] o == v.sig[1] IN
          B(Bag(o, "KeyName") = <<g.name>> /\ Bag(o, "SignatureText") = <<g.name>> /\ Bag(o, "SignatureComments") = g.comments
            /\ HashUri[Get(g.hash, "Sha256")] \in Rng(Bag(o, "Algorithms")) /\ Bag(o, "ManifestHashAlgorithm") = <<HashUri[Get(g.hash, "Sha256")]>>
            /\ Bag(o, "CommitmentTypeId") = <<CommitUri[Get(g.commit, "Created")]>>
            /\ (g.date # <<>> => Bag(o, "SigningTime") = g.date), "G09:signature"))

(* which classes of parts a setting may change *)
MayChange(x) ==
       (IF x.theme # <<>> THEN {"theme"} ELSE {}) \cup (IF x.show # <<>> THEN {"presProps"} ELSE {})
  \cup (IF x.print # <<>> THEN {"master", "layout"} ELSE {})
  \cup (IF x.print # <<>> /\ Get(x.print[1].what, "Slides") = "Handouts" THEN {"handout", "presentation", "types", "otherTheme"} ELSE {})
  \cup (IF x.fonts # <<>> THEN {"fonts", "presentation", "types"} ELSE {}) \cup (IF x.sig # <<>> THEN {"sig", "root", "types"} ELSE {})

(* ------------------------------------------------------------------- judging *)
PerSlide(F(_, _), d, v) == UNION {F(d.slides[i], v.slides[i]) : i \in DOMAIN d.slides}
View1(d, want, v) ==
  LET n == Len(v.slides) = Len(d.slides)
      sp == [i \in DOMAIN v.slides |-> v.slides[i].part]
      W(p) == p \in Rng(want) IN
       (IF W("G02") THEN DeckTexts(d, v) \cup (IF n THEN UNION {Texts(d.slides[i], v.slides[i], sp) : i \in DOMAIN d.slides} ELSE {}) ELSE {})
  \cup (IF W("G03") THEN Apart(v) \cup (IF n THEN UNION {Bind(d.slides[i], v.slides[i], sp) : i \in DOMAIN d.slides} ELSE {"G03:slide-count"}) ELSE {})
  \cup (IF W("G05") THEN Media(d, v) ELSE {})
  \cup (IF W("G06") THEN (IF n THEN PerSlide(ChartsOk, d, v) ELSE {"G06:slide-count"}) ELSE {})
  \cup (IF W("G07") THEN (IF n THEN PerSlide(TableOk, d, v) ELSE {"G07:slide-count"}) ELSE {})
  \cup (IF W("G08") THEN (IF n THEN PerSlide(Format, d, v) ELSE {"G08:slide-count"}) ELSE {})

(* parts that presentation settings may not touch: (class, name, digest) of every part with and without them *)
SamePart(a, b, may) == {x \in Rng(a) : x[1] \notin may} = {x \in Rng(b) : x[1] \notin may}

DJudge(e, s) ==
  LET o == e.obs
      bad == IF o.panic THEN {"panic"} ELSE IF o.err THEN {"error"}
             ELSE CASE e.op.name = "pkg" -> {"G01:" \o c : c \in Closed(o.pkg)} \cup B(Len(o.pkg.sldIds) = Len(s.deck.slides), "G01:slide-count")
                    [] e.op.name = "slides" -> View1(s.deck, s.want, o)
                    [] e.op.name = "settings" -> Settings(s.deck.settings, o.settings) \cup B(SamePart(o.with, o.without, MayChange(s.deck.settings)), "G09:other-part-changed")
                    [] e.op.name = "same" -> UNION {B(Rng(o.digests[i]) = Rng(o.digests[1]), "G04:" \o o.names[i] \o "-differs") : i \in DOMAIN o.names}
                                              \cup B(\A i \in DOMAIN o.full : o.full[i] # "ok", "G04:full-writer-not-reported")
                    [] OTHER -> {"unknown-op"}
  IN [st |-> s, bad |-> bad, exp |-> "see deck"]
=============================================================================
