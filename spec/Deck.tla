-------------------------------- MODULE Deck --------------------------------
(* What a deck (the abstract input of the generator) must look like in the file:  *)
(* operators from the input to the expected view of each slide.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Get(o, d) == IF o = <<>> THEN d ELSE o[1]
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

(* ------------------------------------------------------------------ layouts *)
LayoutNo == [CenteredTitle |-> 1, TitleAndContent |-> 2, TwoColumn |-> 3, SectionHeader |-> 4, Blank |-> 5, TitleOnly |-> 6, TitleAndBigContent |-> 7]
HasTitle(s) == s.layout # "Blank"

Trans == [None |-> "none", Cut |-> "none", Fade |-> "fade", Push |-> "push", Wipe |-> "wipe", Split |-> "split", Reveal |-> "reveal", Cover |-> "cover", Zoom |-> "zoom"]
ExpTrans(s) == IF s.trans = "" THEN "none" ELSE Trans[s.trans]

(* ------------------------------------------------------------------- titles *)
TitleDefault(l) == CASE l = "SectionHeader" -> 48 [] l = "CenteredTitle" -> 54 [] OTHER -> 44
SizeOf(o, fallback, deflt) == IF o = <<>> THEN deflt ELSE IF o[1] = -1 THEN fallback ELSE o[1]
ExpTitle(s) ==
  IF ~HasTitle(s) THEN <<>> ELSE
  << [t |-> s.title, sz |-> 100 * SizeOf(s.tsz, TitleDefault(s.layout), 44),
      b |-> (s.layout = "SectionHeader" \/ Get(s.tb, TRUE)), i |-> Get(s.ti, FALSE), u |-> IF Get(s.tu, FALSE) THEN "sng" ELSE "none",
      color |-> Get(s.tc, ""), algn |-> IF s.layout \in {"SectionHeader", "CenteredTitle"} THEN "ctr" ELSE "l"] >>

(* ------------------------------------------------------------------ bullets *)
Bu(st) ==
  CASE st.k = "Bullet" -> "char:~2022;"
    [] st.k = "Number" -> "auto:arabicPeriod" [] st.k = "LetterLower" -> "auto:alphaLcPeriod" [] st.k = "LetterUpper" -> "auto:alphaUcPeriod"
    [] st.k = "RomanLower" -> "auto:romanLcPeriod" [] st.k = "RomanUpper" -> "auto:romanUcPeriod"
    [] st.k = "Custom" -> "char:" \o st.c
    [] OTHER -> "none"
Simple(k) == [k |-> k, c |-> ""]

(* run the slide's bullet-building operations *)
RECURSIVE Bullets(_, _, _)
Bullets(ops, cur, acc) ==
  IF ops = <<>> THEN [cur |-> cur, out |-> acc] ELSE
  LET o == Head(ops)
      P(st, lvl, f) == Append(acc, [t |-> o.t, st |-> st, lvl |-> lvl, f |-> f])
  IN CASE o.m = "style" -> Bullets(Tail(ops), o.st, acc)
       [] o.m = "add" -> Bullets(Tail(ops), cur, P(cur, 0, <<>>))
       [] o.m = "styled" -> Bullets(Tail(ops), cur, P(o.st, 0, <<>>))
       [] o.m = "num" -> Bullets(Tail(ops), cur, P(Simple("Number"), 0, <<>>))
       [] o.m = "let" -> Bullets(Tail(ops), cur, P(Simple("LetterLower"), 0, <<>>))
       [] o.m = "sub" -> Bullets(Tail(ops), cur, P(cur, 1, <<>>))
       [] o.m = "raw" -> Bullets(Tail(ops), cur, P(o.st, o.lvl, o.f))
       [] OTHER -> Bullets(Tail(ops), cur, acc)
BulletList(s) ==
  LET r == Bullets(s.b, Simple("Bullet"), <<>>)
      plain == SelectSeq(s.b, LAMBDA o : o.m = "content")
  IN IF r.out # <<>> THEN r.out ELSE [i \in DOMAIN plain |-> [t |-> plain[i].t, st |-> r.cur, lvl |-> 0, f |-> <<>>]]

\* a centred title has lines below it only where there are some
HasBody(s) == s.layout \in {"TitleAndContent", "TitleAndBigContent", "TwoColumn"} \/ (s.layout = "CenteredTitle" /\ BulletList(s) # <<>>)
NoFmt == [b |-> FALSE, i |-> FALSE, u |-> FALSE, s |-> FALSE, sub |-> FALSE, sup |-> FALSE, color |-> <<>>, hl |-> <<>>, sz |-> <<>>, font |-> <<>>]
ContentSize(s) == SizeOf(s.csz, IF s.layout = "TwoColumn" THEN 24 ELSE 28, 28)
ExpPara(s, b) ==
  LET f == Get(b.f, NoFmt) IN
  [t |-> b.t, sz |-> 100 * Get(f.sz, ContentSize(s)), b |-> (f.b \/ Get(s.cb, FALSE)), i |-> (f.i \/ Get(s.ci, FALSE)),
   u |-> IF f.u \/ Get(s.cu, FALSE) THEN "sng" ELSE "none", strike |-> IF f.s THEN "sngStrike" ELSE "none",
   base |-> IF f.sub THEN -25000 ELSE IF f.sup THEN 30000 ELSE 0, color |-> Get(f.color, Get(s.cc, "")), hl |-> Get(f.hl, ""), font |-> Get(f.font, ""),
   lvl |-> IF b.lvl > 8 THEN 8 ELSE b.lvl, bu |-> Bu(b.st)]
ExpBodies(s) ==
  LET ps == [i \in DOMAIN BulletList(s) |-> ExpPara(s, BulletList(s)[i])] IN
  IF ~HasBody(s) THEN <<>>
  ELSE IF s.layout = "TwoColumn"
  THEN LET h == (Len(ps) + 1) \div 2 IN << SubSeq(ps, 1, h), SubSeq(ps, h + 1, Len(ps)) >>
  ELSE << ps >>

(* --------------------------------------------------- tables (see also TableMerge) *)
Al == [Left |-> "l", Center |-> "ctr", Right |-> "r", Justify |-> "just"]
Va == [Top |-> "t", Middle |-> "ctr", Bottom |-> "b"]
ExpCell(c) ==
  LET away == c.hm \/ c.vm IN
  [t |-> c.t, algn |-> Al[Get(c.al, "Center")], anchor |-> Va[Get(c.va, "Middle")], bg |-> Get(c.bg, ""),
   gs |-> IF away THEN 1 ELSE Get(c.gs, 1), rs |-> IF away THEN 1 ELSE Get(c.rs, 1), hm |-> c.hm, vm |-> c.vm,
   b |-> c.b, i |-> c.i, u |-> IF c.u THEN "sng" ELSE "none", sz |-> Get(c.sz, -2), color |-> Get(c.tc, ""), font |-> Get(c.font, "")]
ExpTable(t) ==
  [x |-> t.x, y |-> t.y, cols |-> t.cols,
   rows |-> [r \in DOMAIN t.rows |-> [h |-> Get(t.rows[r].h, -2), cells |-> Map(ExpCell, t.rows[r].cells)]]]

(* ------------------------------------------------------------------- shapes *)
Angle(f) == CASE f.dir = "Horizontal" -> 0 [] f.dir = "Vertical" -> 5400000 [] f.dir = "DiagonalDown" -> 2700000 [] f.dir = "DiagonalUp" -> 18900000 [] OTHER -> 60000 * f.ang
Alpha(tr) == IF tr = <<>> THEN -1 ELSE 1000 * (100 - Min2(tr[1], 100))
Fill(s) == IF s.fill = <<>> THEN [k |-> "none"] ELSE s.fill[Len(s.fill)]
ExpShape(s) ==
  LET f == Fill(s) IN
  [prst |-> s.prst, x |-> s.x, y |-> s.y, cx |-> s.w, cy |-> s.h, rot |-> IF s.rot = <<>> THEN 0 ELSE 60000 * s.rot[1],
   fill |-> IF f.k = "solid" THEN f.c ELSE "", alpha |-> IF f.k = "solid" THEN Alpha(f.tr) ELSE -1,
   grad |-> IF f.k = "grad" THEN << [ang |-> Angle(f), stops |-> [i \in DOMAIN f.stops |-> [p |-> 1000 * Min2(f.stops[i].p, 100), c |-> f.stops[i].c, al |-> Alpha(f.stops[i].tr)]]] >> ELSE <<>>,
   ln |-> s.ln, lines |-> s.t]
Jump == [FirstSlide |-> "firstslide", LastSlide |-> "lastslide", NextSlide |-> "nextslide", PreviousSlide |-> "previousslide", EndShow |-> "endshow"]
ExpLink(l, slideParts) ==
  IF l.k \in DOMAIN Jump
  THEN [ty |-> "", ext |-> FALSE, tg |-> "", action |-> "ppaction://hlinkshowjump?jump=" \o Jump[l.k], tip |-> l.tip, hl |-> Get(l.hl, TRUE)]
  ELSE IF l.k = "slide"
  THEN [ty |-> "slide", ext |-> FALSE, tg |-> IF l.n <= Len(slideParts) THEN slideParts[l.n] ELSE "?", action |-> "ppaction://hlinksldjump", tip |-> l.tip, hl |-> Get(l.hl, TRUE)]
  ELSE [ty |-> "hyperlink", ext |-> TRUE, tg |-> l.tg, action |-> "", tip |-> l.tip, hl |-> Get(l.hl, TRUE)]

(* --------------------------------------------------------------- connectors *)
CxnPrst == [Straight |-> "straightConnector1", Elbow |-> "bentConnector3", Curved |-> "curvedConnector3"]
Site == [Top |-> 0, Right |-> 1, Bottom |-> 2, Left |-> 3, TopLeft |-> 4, TopRight |-> 5, BottomRight |-> 6, BottomLeft |-> 7, Center |-> 8]
Arrow == [None |-> "none", Triangle |-> "triangle", Stealth |-> "stealth", Diamond |-> "diamond", Oval |-> "oval", Open |-> "arrow"]
Asz == [Small |-> "sm", Medium |-> "med", Large |-> "lg"]
Dash == [Solid |-> "solid", Dash |-> "dash", Dot |-> "dot", DashDot |-> "dashDot", DashDotDot |-> "lgDashDotDot", LongDash |-> "lgDash", LongDashDot |-> "lgDashDot"]
End(a, z) == IF a = <<>> \/ a[1] = "None" THEN <<"none", "", "">> ELSE <<Arrow[a[1]], Asz[Get(z, "Medium")], Asz[Get(z, "Medium")]>>
Conn(o) == IF o = <<>> THEN <<>> ELSE << o[1].id, Site[o[1].s] >>
ExpCxn(c) ==
  LET l == Get(c.ln, [c |-> "000000", w |-> 12700, d |-> <<>>]) IN
  [prst |-> CxnPrst[c.ty], x |-> Min2(c.x1, c.x2), y |-> Min2(c.y1, c.y2), cx |-> Abs(c.x2 - c.x1), cy |-> Abs(c.y2 - c.y1), fh |-> c.x2 < c.x1, fv |-> c.y2 < c.y1,
   w |-> l.w, c |-> l.c, d |-> Dash[Get(l.d, "Solid")], head |-> End(c.sa, c.asz), tail |-> End(c.ea, c.asz), st |-> Conn(c.st), en |-> Conn(c.en), label |-> c.label]

(* ------------------------------------------------------------------- charts *)
(* kind of plot, bar direction, grouping, style of each plot; and which series it carries *)
Plot(k, d, g, sc, ra) == [k |-> k, dir |-> d, grp |-> g, scat |-> sc, radar |-> ra]
PlotOf(ty) ==
  CASE ty = "Bar" -> Plot("barChart", "col", "clustered", "", "") [] ty = "BarHorizontal" -> Plot("barChart", "bar", "clustered", "", "")
    [] ty = "BarStacked" -> Plot("barChart", "col", "stacked", "", "") [] ty = "BarStacked100" -> Plot("barChart", "col", "percentStacked", "", "")
    [] ty = "Line" -> Plot("lineChart", "", "standard", "", "") [] ty = "LineMarkers" -> Plot("lineChart", "", "standard", "", "")
    [] ty = "LineStacked" -> Plot("lineChart", "", "stacked", "", "")
    [] ty = "Pie" -> Plot("pieChart", "", "", "", "") [] ty = "Doughnut" -> Plot("doughnutChart", "", "", "", "")
    [] ty = "Area" -> Plot("areaChart", "", "standard", "", "") [] ty = "AreaStacked" -> Plot("areaChart", "", "stacked", "", "")
    [] ty = "AreaStacked100" -> Plot("areaChart", "", "percentStacked", "", "")
    [] ty = "Scatter" -> Plot("scatterChart", "", "", "marker", "") [] ty = "ScatterLines" -> Plot("scatterChart", "", "", "lineMarker", "")
    [] ty = "ScatterSmooth" -> Plot("scatterChart", "", "", "smoothMarker", "") [] ty = "Bubble" -> Plot("bubbleChart", "", "", "", "")
    [] ty = "Radar" -> Plot("radarChart", "", "", "", "marker") [] ty = "RadarFilled" -> Plot("radarChart", "", "", "", "filled")
    [] ty \in {"StockHLC", "StockOHLC"} -> Plot("stockChart", "", "", "", "")
    [] OTHER -> Plot("barChart", "col", "clustered", "", "")
XY(ty) == ty \in {"Scatter", "ScatterLines", "ScatterSmooth", "Bubble"}
First(ty) == ty \in {"Pie", "Doughnut"}
Ints(n) == [i \in 1..n |-> i - 1]
(* the series of the chart, in plot order, with the plot each belongs to *)
Plots(c) ==
  IF c.ty = "Combo" /\ Len(c.series) > 1
  THEN LET n == Max2(1, Len(c.series) \div 2) IN
       << [p |-> Plot("barChart", "col", "clustered", "", ""), s |-> SubSeq(c.series, 1, n)],
          [p |-> Plot("lineChart", "", "standard", "", ""), s |-> SubSeq(c.series, n + 1, Len(c.series))] >>
  ELSE << [p |-> PlotOf(c.ty), s |-> IF First(c.ty) THEN SubSeq(c.series, 1, Min2(1, Len(c.series))) ELSE c.series] >>
SerOk(q, s, idx) ==
  /\ q.idx = idx /\ q.order = idx /\ q.name = s.name
  /\ q.y.v = s.vals /\ q.y.i = Ints(Len(s.vals)) /\ q.y.n \in {-1, Len(s.vals)}
XyOk(q, s, ty) ==
  XY(ty) => /\ q.x.i = Ints(Len(s.vals)) /\ q.x.n \in {-1, Len(s.vals)}
            /\ q.x.v = [i \in 1..Len(s.vals) |-> ToString(i) \o ".0"]
            /\ (ty = "Bubble" => q.sz.i = Ints(Len(s.vals)) /\ q.sz.v = s.abs)
ChartClauses(c, o) ==     \* o: view of the chart part
  LET ps == Plots(c)
      base(k) == Sum([j \in 1..(k - 1) |-> Len(ps[j].s)])
  IN
  (IF o.title = c.title THEN {} ELSE {"title"})
  \cup (IF Len(o.plots) = Len(ps) /\ \A k \in DOMAIN ps : LET a == o.plots[k] IN Plot(a.k, a.dir, a.grp, a.scat, a.radar) = ps[k].p THEN {} ELSE {"plot-kind"})
  \cup (IF Len(o.plots) = Len(ps) /\ \A k \in DOMAIN ps : Len(o.plots[k].ser) = Len(ps[k].s) THEN
          (IF \A k \in DOMAIN ps : \A j \in DOMAIN ps[k].s : SerOk(o.plots[k].ser[j], ps[k].s[j], base(k) + j - 1) THEN {} ELSE {"series"})
          \cup (IF \A k \in DOMAIN ps : \A j \in DOMAIN ps[k].s : XyOk(o.plots[k].ser[j], ps[k].s[j], c.ty) THEN {} ELSE {"points"})
        ELSE {"series-count"})
  \cup (IF XY(c.ty) \/ c.series = <<>> THEN {} ELSE IF o.cats.v = c.cats /\ o.cats.i = Ints(Len(c.cats)) /\ o.cats.n = Len(c.cats) THEN {} ELSE {"categories"})

(* -------------------------------------------------------------------- media *)
(* distinct (bytes, type) pairs in order of first use *)
RECURSIVE Uniq(_, _)
Uniq(s, acc) == IF s = <<>> THEN acc ELSE LET k == [sha |-> Head(s).sha, ext |-> Head(s).ext] IN Uniq(Tail(s), IF k \in {acc[i] : i \in DOMAIN acc} THEN acc ELSE Append(acc, k))
MediaOf(d) == Uniq(Flat([i \in DOMAIN d.slides |-> d.slides[i].images]), <<>>)
MediaName(m, k) == "ppt/media/image" \o ToString(k) \o "." \o m.ext
=============================================================================
