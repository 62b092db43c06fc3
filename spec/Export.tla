------------------------------- MODULE Export -------------------------------
(* What the Markdown and HTML exports of a deck show, as sequences of blocks.                  *)
(* A text is the sequence of its lines (white space at the edges of a line does not count).    *)
(* deck:  title, slides; a slide: title, bullets (texts), tables (rows of cells), codes        *)
(* (language, lines), notes (none, or a text), pics (file extensions).                         *)
(* A cell covered by a merged neighbour (cov) shows nothing of its own.                        *)
EXTENDS Naturals, Sequences, TLC

RECURSIVE Solid(_)
Solid(ls) == IF ls = <<>> THEN <<>> ELSE (IF Head(ls) = "" THEN <<>> ELSE <<Head(ls)>>) \o Solid(Tail(ls))
RECURSIVE JoinBy(_, _)
JoinBy(ls, sep) == IF ls = <<>> THEN "" ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o sep \o JoinBy(Tail(ls), sep)
(* a text that a format keeps on one line *)
Flat(ls) == <<JoinBy(Solid(ls), " ")>>
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Each(ss, F(_)) == [i \in DOMAIN ss |-> F(ss[i])]
Max(S) == CHOOSE x \in S \cup {0} : \A y \in S : y <= x

Block(k, t) == [k |-> k, t |-> t, a |-> "", n |-> 0, rows |-> <<>>]
CodeBlock(c) == [Block("code", c.t) EXCEPT !.a = c.lang]

(* ---------------------------------------------------------------- Markdown *)
(* the table is a rectangle as wide as its widest row; readers cut what stands beyond the header row *)
Width(rows) == Max({Len(rows[i]) : i \in DOMAIN rows})
CellText(rows, i, j) == IF j > Len(rows[i]) THEN <<>> ELSE Solid(rows[i][j].t)
MdTable(rows) == IF Width(rows) = 0 THEN <<>> ELSE
  <<[Block("table", <<>>) EXCEPT !.rows = [i \in DOMAIN rows |-> [j \in 1..Width(rows) |-> CellText(rows, i, j)]]]>>
MdHeading(n, ls) == [Block("h", Flat(ls)) EXCEPT !.n = n]
Numbered(i, ls) == <<JoinBy(Solid(<<"Slide " \o ToString(i) \o ":">> \o ls), " ")>>
MdPic(s, i) == LET F(j) == [Block("img", <<>>) EXCEPT !.a = s.pics[j], !.n = i] IN [j \in DOMAIN s.pics |-> F(j)]
Some(b, x) == IF b THEN x ELSE <<>>
MdSlide(s, i, o) ==
     Some((i > 1 \/ o.numbers) /\ o.sep # "", <<Block(o.sep, <<>>)>>)
  \o <<[Block("h", IF o.numbers THEN Numbered(i, s.title) ELSE Flat(s.title)) EXCEPT !.n = 2]>>
  \o Each(s.bullets, LAMBDA b : Block("li", Solid(b)))
  \o Some(o.tables, Concat(Each(s.tables, LAMBDA t : MdTable(t))))
  \o Some(o.images, MdPic(s, i))
  \o Each(s.codes, CodeBlock)
  \o Some(o.notes, Concat(Each(s.notes, LAMBDA x : <<Block("label", <<"Notes:">>)>> \o Some(Solid(x) # <<>>, <<Block("quote", Solid(x))>>))))
MdDeck(d, o) ==
     Some(o.front, <<[Block("front", Flat(d.title)) EXCEPT !.n = Len(d.slides)]>>)
  \o <<MdHeading(1, d.title)>>
  \o Concat([i \in DOMAIN d.slides |-> MdSlide(d.slides[i], i, o)])

(* ---------------------------------------------------------------- HTML *)
(* a row lists its visible cells, each with its column and row spans *)
RECURSIVE Visible(_)
Visible(cs) == IF cs = <<>> THEN <<>> ELSE
  (IF Head(cs).cov THEN <<>> ELSE <<[t |-> Solid(Head(cs).t), cs |-> Head(cs).cs, rs |-> Head(cs).rs]>>) \o Visible(Tail(cs))
HtmlTable(rows) == <<[Block("table", <<>>) EXCEPT !.rows = [i \in DOMAIN rows |-> Visible(rows[i])]]>>
HtmlSlide(s, i, o) ==
     <<[Block("slide", <<>>) EXCEPT !.n = i], [Block("h", Flat(s.title)) EXCEPT !.n = 2]>>
  \o Each(s.bullets, LAMBDA b : Block("li", Solid(b)))
  \o Concat(Each(s.tables, LAMBDA t : HtmlTable(t)))
  \o Each(s.imgs, LAMBDA p : [Block("img", <<>>) EXCEPT !.a = p])
  \o Each(s.codes, LAMBDA c : IF o.light THEN CodeBlock(c) ELSE Block("code", c.t))
  \o Some(o.notes, Each(s.notes, LAMBDA x : Block("notes", Solid(x))))
HtmlDeck(d, o) ==
     <<Block("title", Flat(d.title)), [Block("slide", <<>>) EXCEPT !.n = 0], [Block("h", Flat(d.title)) EXCEPT !.n = 1]>>
  \o Concat([i \in DOMAIN d.slides |-> HtmlSlide(d.slides[i], i, o)])
  \o Some(o.nav, <<Block("nav", <<>>)>>)
=============================================================================
