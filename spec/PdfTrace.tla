------------------------------ MODULE PdfTrace ------------------------------
(* Judges the PDFs the real exporters write, as read back by an independent PDF reader.        *)
EXTENDS TraceLib, Pdf

DStart(e) == e.op
Ok(cond, name) == IF cond THEN {} ELSE {name}
Shows(g, w) == g.t \in w.ts
Sized(g, w) == w.sz = {} \/ g.size \in w.sz
Coloured(g, w) == w.col = {} \/ g.col \in w.col
(* everything the page had room for is there: what is missing is missing at the end, on a full page *)
PageBad(p, s, i, n) ==
  LET all == SelectSeq(p.runs, LAMBDA r : r.t # "")
      w == Wanted(s)
      foot == IF all = <<>> THEN <<>> ELSE <<all[Len(all)]>>
      g == IF all = <<>> THEN <<>> ELSE SubSeq(all, 1, Len(all) - 1)
      m == Min2(Len(g), Len(w))
      low == IF m = 0 THEN p.h ELSE g[m].y
      room == 550 + (60 * (IF s.csz = <<>> \/ s.csz[1] = -1 THEN 2100 ELSE 75 * s.csz[1])) \div 100
      sparse == (\E j \in DOMAIN s.b : s.b[j].t = "") \/ (\E j \in DOMAIN s.codes : \E k \in DOMAIN s.codes[j] : s.codes[j][k] = "")
      shown == Len(g) <= Len(w) /\ \A j \in DOMAIN g : Shows(g[j], w[j])
  IN  Ok(foot # <<>> /\ foot[1].t = Footer(i, n), "page-number")
  \cup Ok(shown, "texts")
  \cup (IF ~shown THEN {} ELSE
        Ok(Len(g) = Len(w) \/ (Len(g) < Len(w) /\ (sparse \/ low < room)), "left-out")
   \cup Ok(\A j \in DOMAIN g : g[j].face = w[j].face, "face")
   \cup Ok(\A j \in DOMAIN g : Sized(g[j], w[j]), "size")
   \cup Ok(\A j \in DOMAIN g : Coloured(g[j], w[j]), "colour")
   \cup Ok(\A j \in DOMAIN g : g[j].y > 0 /\ g[j].y < p.h /\ (~(Centred(s) /\ w[j].k = "title") => g[j].x > 0 /\ g[j].x < p.w), "off-page")
   \cup Ok(\A j \in 2..Len(g) : IF w[j].line = w[j - 1].line THEN g[j].y = g[j - 1].y /\ g[j].x > g[j - 1].x ELSE g[j].y < g[j - 1].y, "lines")
   \cup Ok(\A j, k \in DOMAIN g : {w[j].k, w[k].k} \subseteq {"mark", "bare"} /\ ~(Centred(s) /\ "bare" \in {w[j].k, w[k].k})
                                   => ((w[j].lvl = w[k].lvl => g[j].x = g[k].x) /\ (w[j].lvl < w[k].lvl => g[j].x < g[k].x)), "indent")
   \cup Ok(foot # <<>> => \A j \in DOMAIN g : foot[1].y < g[j].y, "page-number"))
  \cup Ok(Centred(s) \/ (p.strokes > 0) = Get(s.tu, FALSE), "underline")
(* where text starts: the same on every page that is not centred *)
Margins(ps, ss) == {ps[i].runs[j].x : <<i, j>> \in {<<a, b>> \in (DOMAIN ps) \X {1} : ~Centred(ss[a]) /\ ps[a].runs # <<>> /\ ss[a].title # ""}}

DrawnBad(o, d) ==
  LET n == Len(d.slides) IN
  IF o.panic THEN {"panic"} ELSE
  IF n = 0 THEN Ok(o.err, "empty-accepted") \cup Ok(o.kept, "empty-written") ELSE
  IF o.err THEN {"error"} ELSE
       {"structure-" \o o.faults[i] : i \in DOMAIN o.faults}
  \cup Ok(o.same, "file-differs")
  \cup Ok(Len(o.pages) = n, "pages")
  \cup (IF Len(o.pages) # n THEN {} ELSE
        UNION {PageBad(o.pages[i], d.slides[i], i, n) : i \in 1..n}
   \cup Ok(\A i \in 1..n : o.pages[i].w = o.pages[1].w /\ o.pages[i].h = o.pages[1].h /\ o.pages[i].w > o.pages[i].h, "page-size")
   \cup LET X == Margins(o.pages, d.slides) IN Ok(\A x, y \in X : x = y, "margin"))
DocBad(o, d, opt) ==
  IF o.panic THEN {"doc-panic"} ELSE IF o.err THEN {"doc-error"} ELSE
       {"doc-structure-" \o o.faults[i] : i \in DOMAIN o.faults}
  \cup Ok(o.same, "doc-file-differs")
  \cup Ok(\A i \in DOMAIN o.pages : (o.pages[i].w > o.pages[i].h) = opt.land, "doc-orientation")
DJudge(e, s) ==
  LET b == IF e.op.name = "drawn" THEN DrawnBad(e.obs, s.d) ELSE DocBad(e.obs, s.d, s.doc)
  IN [st |-> s, exp |-> IF e.op.name = "drawn" THEN [i \in DOMAIN s.d.slides |-> Wanted(s.d.slides[i])] ELSE <<>>, bad |-> {"X02:" \o x : x \in b}]
=============================================================================
