------------------------------ MODULE Markdown ------------------------------
(* What a Markdown document means as slides.  A document is a sequence of blocks:             *)
(*   [k |-> "h", n, t]  heading of level n        [k |-> "p", t]      paragraph                 *)
(*   [k |-> "list", ord, items]  (an item is a sequence of blocks)                              *)
(*   [k |-> "quote", body]       [k |-> "code", lang, c]   [k |-> "table", rows]                *)
(*   [k |-> "rule"]              [k |-> "html"]                                                  *)
(* Inline text t is a sequence of pieces [k, x] (text, strong, em, both, del, code, break,      *)
(* img: placeholder labelled y, pic: a picture file).                                           *)
(* A slide: title ("?": any, for slides that no heading opened), bullets, tables, codes,       *)
(* notes (lines), labels of image placeholders, number of pictures.                            *)
EXTENDS Naturals, Sequences, FiniteSets

Piece(q) == CASE q.k = "strong" -> "**" \o q.x \o "**"
              [] q.k = "em" -> "*" \o q.x \o "*"
              [] q.k = "both" -> "***" \o q.x \o "***"
              [] q.k = "del" -> "~7e;~7e;" \o q.x \o "~7e;~7e;"
              [] q.k = "code" -> "`" \o q.x \o "`"
              [] q.k = "break" -> " "
              [] OTHER -> q.x
RECURSIVE Text(_)
Text(t) == IF t = <<>> THEN "" ELSE Piece(Head(t)) \o Text(Tail(t))
RECURSIVE Only(_, _)
Only(t, kind) == IF t = <<>> THEN <<>> ELSE (IF Head(t).k = kind THEN <<Head(t).y>> ELSE <<>>) \o Only(Tail(t), kind)

NewSlide(title) == [title |-> title, body |-> <<>>, tables |-> <<>>, codes |-> <<>>, notes |-> <<>>, labels |-> <<>>, pics |-> 0]
(* s: done slides, the open one (if any); fork: a list item's text is pending *)
Begin == [done |-> <<>>, cur |-> <<>>]
Shut(s) == [done |-> s.done \o s.cur, cur |-> <<>>]
Open(s) == IF s.cur = <<>> THEN [s EXCEPT !.cur = <<NewSlide("?")>>] ELSE s
On(s, sl) == [s EXCEPT !.cur = <<sl>>]
Cur(s) == s.cur[1]
Bullet(s, x, lvl, ord) == IF x = "" THEN s ELSE LET o == Open(s) IN On(o, [Cur(o) EXCEPT !.body = Append(@, [t |-> x, lvl |-> lvl, num |-> ord])])
Pictures(s, t) == IF Only(t, "img") = <<>> /\ Only(t, "pic") = <<>> THEN s
                  ELSE LET o == Open(s) IN On(o, [Cur(o) EXCEPT !.labels = @ \o Only(t, "img"), !.pics = @ + Len(Only(t, "pic"))])
Continue(s) == LET d == Shut(s) IN
  IF d.done = <<>> THEN d ELSE LET w == d.done[Len(d.done)].title IN [d EXCEPT !.cur = <<NewSlide(IF w = "?" THEN "?" ELSE w \o " (continued)")>>]
Code(s, b) == LET o == Open(s) IN On(o, [Cur(o) EXCEPT !.codes = Append(@, [lang |-> b.lang, c |-> b.c])])
RECURSIVE CellPictures(_, _)
CellPictures(s, cells) == IF cells = <<>> THEN s ELSE CellPictures(Pictures(s, Head(cells)), Tail(cells))
RECURSIVE RowPictures(_, _)
RowPictures(s, rows) == IF rows = <<>> THEN s ELSE RowPictures(CellPictures(s, Head(rows)), Tail(rows))
Width(rows) == Len(rows[1])
Cells(rows) == [i \in DOMAIN rows |-> [j \in 1..Width(rows) |-> IF j <= Len(rows[i]) THEN Text(rows[i][j]) ELSE ""]]
HasTable(s) == s.cur # <<>> /\ Cur(s).tables # <<>>
Table(s, b) == LET q == IF HasTable(s) THEN Continue(s) ELSE s
                   o == Open(q)
               IN On(o, [Cur(o) EXCEPT !.tables = Append(@, Cells(b.rows))])
Join(a, sep, x) == IF a = "" THEN x ELSE IF x = "" THEN a ELSE a \o sep \o x

(* quotes: every paragraph (heading, item) of a quote is a line of the notes *)
RECURSIVE Quote(_, _)
Quote(body, r) ==      \* r: [s, lines]
  IF body = <<>> THEN r ELSE
  LET b == Head(body)
      Line(x) == IF x = "" THEN r.lines ELSE Append(r.lines, x)
      n == CASE b.k \in {"p", "h"} -> [s |-> Pictures(r.s, b.t), lines |-> Line(Text(b.t))]
             [] b.k = "quote" -> Quote(b.body, r)
             [] b.k = "list" -> LET RECURSIVE Its(_, _)
                                    Its(its, q) == IF its = <<>> THEN q ELSE Its(Tail(its), Quote(Head(its), q))
                                IN Its(b.items, r)
             [] b.k = "code" -> [r EXCEPT !.s = Code(r.s, b)]
             [] OTHER -> r
  IN Quote(Tail(body), n)
Notes(s, lines) == IF lines = <<>> THEN s ELSE LET o == Open(s) IN On(o, [Cur(o) EXCEPT !.notes = @ \o lines])
QuoteBlock(s, b) == LET r == Quote(b.body, [s |-> s, lines |-> <<>>]) IN Notes(r.s, r.lines)

(* lists: the paragraphs of an item make one bullet, up to a nested list *)
RECURSIVE Items(_, _, _, _)
RECURSIVE Item(_, _, _, _)
Item(body, r, lvl, ord) ==      \* r: [s, acc]
  IF body = <<>> THEN Bullet(r.s, r.acc, lvl, ord) ELSE
  LET b == Head(body)
      n == CASE b.k \in {"p", "h"} -> [s |-> Pictures(r.s, b.t), acc |-> Join(r.acc, " ", Text(b.t))]
             [] b.k = "list" -> [s |-> Items(b.items, Bullet(r.s, r.acc, lvl, ord), lvl + 1, b.ord), acc |-> ""]
             [] b.k = "quote" -> [r EXCEPT !.s = QuoteBlock(r.s, b)]
             [] b.k = "code" -> [r EXCEPT !.s = Code(r.s, b)]
             [] b.k = "table" -> LET q == RowPictures(r.s, b.rows) IN
                                 IF HasTable(q) THEN [s |-> Table(Bullet(q, r.acc, lvl, ord), b), acc |-> ""] ELSE [r EXCEPT !.s = Table(q, b)]
             [] OTHER -> r
  IN Item(Tail(body), n, lvl, ord)
Items(items, s, lvl, ord) == IF items = <<>> THEN s ELSE Items(Tail(items), Item(Head(items), [s |-> s, acc |-> ""], lvl, ord), lvl, ord)

Block(s, b) ==
  CASE b.k = "h" /\ b.n = 1 -> Pictures([Shut(s) EXCEPT !.cur = <<NewSlide(Text(b.t))>>], b.t)
    [] b.k = "h" -> Bullet(Pictures(s, b.t), "**" \o Text(b.t) \o "**", 0, FALSE)
    [] b.k = "p" -> Bullet(Pictures(s, b.t), Text(b.t), 0, FALSE)
    [] b.k = "list" -> Items(b.items, s, 0, b.ord)
    [] b.k = "quote" -> QuoteBlock(s, b)
    [] b.k = "code" -> Code(s, b)
    [] b.k = "table" -> Table(RowPictures(s, b.rows), b)
    [] b.k = "rule" -> Continue(s)
    [] OTHER -> s
RECURSIVE Doc(_, _)
Doc(bs, s) == IF bs = <<>> THEN s ELSE Doc(Tail(bs), Block(s, Head(bs)))
Slides(bs) == Shut(Doc(bs, Begin)).done
=============================================================================
