-------------------------------- MODULE Html --------------------------------
(* What an HTML document means as slides.  A document is a sequence of blocks (col: the look   *)
(* an element's style gives its text: colour, size in points, background, weight, slope,       *)
(* underline, family; "" where it says nothing):                                               *)
(*   [k |-> "h", n, t, col]  [k |-> "p", t, col]  [k |-> "loose", t]  (text in no element of   *)
(*   its own)   [k |-> "list", items, col]  (an item: [body, col])   [k |-> "quote", body]     *)
(*   [k |-> "code", c]   [k |-> "table", cap, rows]  (a cell is a sequence of blocks, cap a    *)
(*   sequence of at most one text)    [k |-> "rule"]    [k |-> "skip"]  (script, nav, ...)     *)
(*   [k |-> "box", body, col]  (div, section, ...)     [k |-> "bold", body]                    *)
(* Text t is a sequence of pieces [k, x]: text, strong, em, both, break, img (label y), pic.   *)
(* Options o: maxs, maxb (limits), code, tables, images (booleans).                            *)
(* A slide: title ("?": any), tcol (look), bullets [t, col], tables, codes, notes, number of          *)
(* pictures.                                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets

Piece(q) == CASE q.k = "strong" -> "**" \o q.x \o "**"
              [] q.k = "em" -> "*" \o q.x \o "*"
              [] q.k = "both" -> "***" \o q.x \o "***"
              [] q.k = "break" -> " "
              [] q.k \in {"img", "pic"} -> ""
              [] OTHER -> q.x
InBold(q) == CASE q.k = "both" -> "*" \o q.x \o "*" [] q.k = "strong" -> q.x [] OTHER -> Piece(q)
RECURSIVE Plain(_, _)
Plain(t, bold) == IF t = <<>> THEN "" ELSE (IF bold THEN InBold(Head(t)) ELSE Piece(Head(t))) \o Plain(Tail(t), bold)
Text(t, bold) == IF bold /\ Plain(t, TRUE) # "" THEN "**" \o Plain(t, TRUE) \o "**" ELSE Plain(t, bold)
RECURSIVE Only(_, _)
Only(t, kind) == IF t = <<>> THEN <<>> ELSE (IF Head(t).k = kind THEN <<Head(t).y>> ELSE <<>>) \o Only(Tail(t), kind)

Plainly == <<"", "", "", "", "", "", "">>
NewSlide(title) == [title |-> title, tcol |-> Plainly, body |-> <<>>, tables |-> <<>>, codes |-> <<>>, notes |-> <<>>, pics |-> 0]
Begin(o) == [done |-> <<>>, cur |-> <<>>, o |-> o]
Shut(s) == [s EXCEPT !.done = s.done \o s.cur, !.cur = <<>>]
Open(s) == IF s.cur = <<>> THEN [s EXCEPT !.cur = <<NewSlide("?")>>] ELSE s
Cur(s) == s.cur[1]
On(s, sl) == [s EXCEPT !.cur = <<sl>>]
Add1(s, x, col) == LET z == Open(s) IN On(z, [Cur(z) EXCEPT !.body = Append(@, [t |-> x, col |-> col])])
(* a block of text is a bullet, as far as the slide has room *)
Bullet(s, x, col) == IF x = "" THEN s ELSE LET z == Open(s) IN IF Len(Cur(z).body) >= s.o.maxb THEN z ELSE Add1(z, x, col)
RECURSIVE Labels(_, _, _)
Labels(s, ls, col) == IF ls = <<>> THEN s ELSE Labels(Bullet(s, Head(ls), col), Tail(ls), col)
Pictures(s, t, col) ==
  IF ~s.o.images THEN s ELSE
  LET a == Labels(s, Only(t, "img"), col)
      n == Len(Only(t, "pic"))
  IN IF n = 0 THEN a ELSE LET z == Open(a) IN On(z, [Cur(z) EXCEPT !.pics = @ + n])
Code(s, c) == IF ~s.o.code THEN s ELSE LET z == Open(s) IN On(z, [Cur(z) EXCEPT !.codes = Append(@, c)])
Continue(s) == LET w == Cur(s).title IN [Shut(s) EXCEPT !.cur = <<NewSlide(IF w = "?" THEN "?" ELSE w \o " (continued)")>>]
Table(s, cells) ==      \* a slide holds one table
  IF ~s.o.tables \/ cells = <<>> THEN s
  ELSE LET z == IF s.cur # <<>> /\ Cur(s).tables # <<>> THEN Continue(s) ELSE Open(s)
           w == CHOOSE m \in {Len(cells[i]) : i \in DOMAIN cells} : \A i \in DOMAIN cells : Len(cells[i]) <= m
           full == [i \in DOMAIN cells |-> [j \in 1..w |-> IF j <= Len(cells[i]) THEN cells[i][j] ELSE ""]]
       IN On(z, [Cur(z) EXCEPT !.tables = Append(@, full)])
Notes(s, lines) == IF lines = <<>> THEN s ELSE LET z == Open(s) IN On(z, [Cur(z) EXCEPT !.notes = lines])   \* the last quote of a slide
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN "" ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o " " \o Join(Tail(xs))
Line(lines, x) == IF x = "" THEN lines ELSE Append(lines, x)
(* what an element says itself goes before what those around it say *)
Col(b, col) == [i \in DOMAIN col |-> IF b.col[i] = "" THEN col[i] ELSE b.col[i]]
(* the look as it shows *)
Show(c) == [c EXCEPT ![4] = IF c[4] = "bold" THEN "bold" ELSE "", ![5] = IF c[5] = "italic" THEN "italic" ELSE ""]
TitleShow(c) == [Show(c) EXCEPT ![2] = IF c[2] = "" THEN "44" ELSE c[2], ![3] = "", ![4] = "", ![7] = ""]

(* e: where text goes: [in |-> "slide" | "quote" | "cell", bold, col]; r: [s, lines]; lines are *)
(* those of the open quote or cell                                                             *)
RECURSIVE Blocks(_, _, _)
RECURSIVE Items(_, _, _)
Items(its, e, r) == IF its = <<>> THEN r ELSE Items(Tail(its), e, Blocks(Head(its).body, [e EXCEPT !.col = Col(Head(its), e.col)], r))
RECURSIVE RowCells(_, _, _)
RowCells(cells, e, r) ==      \* r: [s, row]
  IF cells = <<>> THEN r
  ELSE LET q == Blocks(Head(cells), [e EXCEPT !.in = "cell"], [s |-> r.s, lines |-> <<>>]) IN RowCells(Tail(cells), e, [s |-> q.s, row |-> Append(r.row, Join(q.lines))])
RECURSIVE Rows(_, _, _)
Rows(rows, e, r) ==      \* r: [s, cells]
  IF rows = <<>> THEN r
  ELSE LET q == RowCells(Head(rows), e, [s |-> r.s, row |-> <<>>]) IN Rows(Tail(rows), e, [s |-> q.s, cells |-> IF q.row = <<>> THEN r.cells ELSE Append(r.cells, q.row)])
RECURSIVE InnerRows(_, _, _)
InnerRows(rows, e, r) ==      \* a table in a cell: its text
  IF rows = <<>> THEN r
  ELSE LET RECURSIVE C(_, _)
           C(cells, q) == IF cells = <<>> THEN q ELSE C(Tail(cells), Blocks(Head(cells), e, q))
       IN InnerRows(Tail(rows), e, C(Head(rows), r))
Words(t, e, r) ==
  LET p == Pictures(r.s, t, e.col) IN
  IF e.in = "slide" THEN [r EXCEPT !.s = Bullet(p, Text(t, e.bold), e.col)] ELSE [s |-> p, lines |-> Line(r.lines, Text(t, e.bold))]
Block(b, e, r) ==
  CASE b.k = "h" /\ e.in # "slide" -> Words(b.t, [e EXCEPT !.col = Col(b, e.col)], r)
    [] b.k = "h" /\ b.n = 1 -> LET x == Text(b.t, e.bold)
                                   z == [Shut(r.s) EXCEPT !.cur = <<[NewSlide(IF x = "" THEN "?" ELSE x) EXCEPT !.tcol = Col(b, e.col)]>>]
                               IN [r EXCEPT !.s = Pictures(z, b.t, Col(b, e.col))]
    [] b.k = "h" -> LET p == Pictures(r.s, b.t, Col(b, e.col))
                        x == Text(b.t, e.bold)
                    IN [r EXCEPT !.s = IF x = "" THEN p ELSE Add1(p, "**" \o x \o "**", Col(b, e.col))]
    [] b.k = "p" -> Words(b.t, [e EXCEPT !.col = Col(b, e.col)], r)
    [] b.k = "loose" -> Words(b.t, e, r)
    [] b.k = "list" -> Items(b.items, [e EXCEPT !.col = Col(b, e.col)], r)
    [] b.k = "box" -> Blocks(b.body, [e EXCEPT !.col = Col(b, e.col)], r)
    [] b.k = "bold" -> Blocks(b.body, [e EXCEPT !.bold = TRUE], r)
    [] b.k = "quote" -> IF e.in # "slide" THEN Blocks(b.body, e, r)
                        ELSE LET q == Blocks(b.body, [e EXCEPT !.in = "quote"], [r EXCEPT !.lines = <<>>]) IN [r EXCEPT !.s = Notes(q.s, q.lines)]
    [] b.k = "code" -> [r EXCEPT !.s = Code(r.s, b.c)]
    [] b.k = "table" /\ e.in = "cell" -> InnerRows(b.rows, e, IF b.cap = <<>> THEN r ELSE Words(b.cap[1], e, r))
    [] b.k = "table" -> LET c == IF b.cap = <<>> THEN r ELSE Words(b.cap[1], e, r)
                            q == Rows(b.rows, e, [s |-> c.s, cells |-> <<>>])
                        IN [c EXCEPT !.s = Table(q.s, q.cells)]
    [] b.k = "rule" -> IF e.in = "slide" THEN [r EXCEPT !.s = Shut(r.s)] ELSE r
    [] OTHER -> r
Blocks(bs, e, r) == IF bs = <<>> THEN r ELSE Blocks(Tail(bs), e, Block(Head(bs), e, r))
All(bs, o) == Shut(Blocks(bs, [in |-> "slide", bold |-> FALSE, col |-> Plainly], [s |-> Begin(o), lines |-> <<>>]).s).done
Slides(bs, o) == LET a == All(bs, o) IN SubSeq(a, 1, IF Len(a) < o.maxs THEN Len(a) ELSE o.maxs)
=============================================================================
