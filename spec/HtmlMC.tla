------------------------------- MODULE HtmlMC -------------------------------
(* The parser is a machine fed with the tags and texts of a document; it keeps a stack of open *)
(* elements, from which it must find out where text belongs, and buffers for the text of the   *)
(* block, cell and quote being read.  End tags of p, li, tr and td may be left out.  For every *)
(* document of at most MaxLen blocks the machine must end with the slides the document means.  *)
EXTENDS Html, TLC, Json
CONSTANTS MaxLen, EmitLen
VARIABLES doc, omit, o, m
vars == <<doc, omit, o, m>>

Options == {[maxs |-> 50, maxb |-> 10, code |-> TRUE, tables |-> TRUE, images |-> TRUE],
            [maxs |-> 2, maxb |-> 2, code |-> TRUE, tables |-> TRUE, images |-> TRUE],
            [maxs |-> 50, maxb |-> 1, code |-> FALSE, tables |-> FALSE, images |-> FALSE]}
Sty(c, z, w) == <<c, z, "", w, "", "", "">>
W(x) == [k |-> "text", x |-> x, y |-> ""]
T(x) == <<W(x)>>
P(x) == [k |-> "p", t |-> T(x), col |-> Plainly]
Lo(x) == [k |-> "loose", t |-> T(x)]
H(n, x) == [k |-> "h", n |-> n, t |-> T(x), col |-> Plainly]
I(b) == [body |-> b, col |-> Plainly]
L(its) == [k |-> "list", items |-> its, col |-> Plainly]
Q(b) == [k |-> "quote", body |-> b]
C(x) == [k |-> "code", c |-> x]
Ta(rows) == [k |-> "table", cap |-> <<>>, rows |-> rows]
Box(col, b) == [k |-> "box", body |-> b, col |-> col]
Img(x) == <<W(x \o "a"), [k |-> "img", x |-> "", y |-> x \o "c"], W(x \o "b")>>
(* texts differ by the position i of the block *)
Choices(i) == LET x == <<"A", "B", "C", "D", "E", "F">>[i] IN
  {H(1, x), H(2, x), [H(1, x) EXCEPT !.t = Img(x)], [H(1, x) EXCEPT !.t = <<>>, !.col = Sty("FF0000", "", "")], P(x), Lo(x), C(x), [k |-> "rule"], [k |-> "skip"],
   [P(x) EXCEPT !.t = Img(x)],
   [k |-> "p", t |-> <<W(x \o "1"), [k |-> "strong", x |-> x \o "2", y |-> ""], [k |-> "both", x |-> x \o "3", y |-> ""]>>, col |-> Sty("0000FF", "20", "bold")],
   L(<<I(<<Lo(x \o "1")>>), [I(<<Lo(x \o "2")>>) EXCEPT !.col = Sty("FF0000", "", "")]>>), L(<<I(<<P(x \o "1"), P(x \o "2")>>), I(<<Lo(x \o "3"), C(x), P(x \o "4")>>)>>),
   L(<<I(<<Lo(x \o "1"), Q(<<P(x \o "2")>>)>>), I(<<H(2, x \o "3"), Ta(<<<<<<Lo(x \o "4")>>>>>>)>>)>>),
   Q(<<P(x \o "1"), Lo(x \o "2")>>), Q(<<Lo(x \o "1"), H(1, x \o "2"), Q(<<P(x \o "3")>>), C(x), P(x \o "4")>>), Q(<<L(<<I(<<Lo(x \o "1")>>), I(<<Lo(x \o "2")>>)>>)>>),
   Ta(<<<<<<Lo(x \o "1")>>, <<Lo(x \o "2")>>>>, <<<<Lo(x \o "3")>>>>>>), [Ta(<<<<<<P(x \o "1"), P(x \o "2")>>, <<>>>>>>) EXCEPT !.cap = <<T(x \o "c")>>],
   Ta(<<<<<<Lo(x \o "1"), Ta(<<<<<<Lo(x \o "2")>>, <<Lo(x \o "3")>>>>, <<<<P(x \o "4")>>>>>>), Lo(x \o "5")>>>>, <<<<H(1, x \o "6"), L(<<I(<<Lo(x \o "7")>>)>>)>>, <<C(x), Q(<<Lo(x \o "8")>>)>>>>>>),
   Box(Sty("008000", "12", "bold"), <<Lo(x \o "1"), P(x \o "2"), Lo(x \o "3")>>), Box(Sty("", "15", "bold"), <<Lo(x \o "1"), H(1, x \o "2"), [P(x \o "3") EXCEPT !.col = Sty("FF0000", "24", "normal")]>>), Box(Sty("008000", "12", ""), <<Box(Sty("", "18", ""), <<P(x)>>), [k |-> "skip"]>>),
   [k |-> "bold", body |-> <<P(x \o "1"), [P(x \o "2") EXCEPT !.t = <<W(x), [k |-> "strong", x |-> x \o "3", y |-> ""], [k |-> "em", x |-> x \o "4", y |-> ""]>>]>>]}

(* ---------------------------------------------------------------- tags *)
Tag(n, col) == [e |-> "open", n |-> n, col |-> col, x |-> ""]
End(n) == [e |-> "close", n |-> n, col |-> Plainly, x |-> ""]
Str(x) == [e |-> "text", n |-> "", col |-> Plainly, x |-> x]
Void(n, x) == [e |-> "void", n |-> n, col |-> Plainly, x |-> x]
Ending(n, om) == IF om THEN <<>> ELSE <<End(n)>>
RECURSIVE Inline(_)
Inline(t) == IF t = <<>> THEN <<>> ELSE LET q == Head(t) IN
  (CASE q.k = "strong" -> <<Tag("b", Plainly), Str(q.x), End("b")>> [] q.k = "em" -> <<Tag("i", Plainly), Str(q.x), End("i")>>
     [] q.k = "both" -> <<Tag("b", Plainly), Tag("i", Plainly), Str(q.x), End("i"), End("b")>>
     [] q.k = "img" -> <<Void("img", q.y)>> [] OTHER -> <<Str(q.x)>>) \o Inline(Tail(t))
RECURSIVE AllTags(_, _)
RECURSIVE Tags(_, _)
RECURSIVE ItemTags(_, _)
ItemTags(its, om) == IF its = <<>> THEN <<>> ELSE <<Tag("li", Head(its).col)>> \o AllTags(Head(its).body, om) \o Ending("li", om) \o ItemTags(Tail(its), om)
RECURSIVE CellTags(_, _)
CellTags(cs, om) == IF cs = <<>> THEN <<>> ELSE <<Tag("td", Plainly)>> \o AllTags(Head(cs), om) \o Ending("td", om) \o CellTags(Tail(cs), om)
RECURSIVE RowTags(_, _)
RowTags(rs, om) == IF rs = <<>> THEN <<>> ELSE <<Tag("tr", Plainly)>> \o CellTags(Head(rs), om) \o Ending("tr", om) \o RowTags(Tail(rs), om)
HTag(n) == <<"h1", "h2">>[n]
Tags(b, om) ==
  CASE b.k = "h" -> <<Tag(HTag(b.n), b.col)>> \o Inline(b.t) \o <<End(HTag(b.n))>>
    [] b.k = "p" -> <<Tag("p", b.col)>> \o Inline(b.t) \o Ending("p", om)
    [] b.k = "loose" -> Inline(b.t)
    [] b.k = "list" -> <<Tag("ul", b.col)>> \o ItemTags(b.items, om) \o <<End("ul")>>
    [] b.k = "quote" -> <<Tag("blockquote", Plainly)>> \o AllTags(b.body, om) \o <<End("blockquote")>>
    [] b.k = "code" -> <<Tag("pre", Plainly), Tag("b", Plainly), Str(b.c), End("b"), End("pre")>>
    [] b.k = "table" -> <<Tag("table", Plainly)>> \o (IF b.cap = <<>> THEN <<>> ELSE <<Tag("caption", Plainly)>> \o Inline(b.cap[1]) \o <<End("caption")>>) \o RowTags(b.rows, om) \o <<End("table")>>
    [] b.k = "rule" -> <<Void("hr", "")>>
    [] b.k = "skip" -> <<Tag("nav", Plainly), Tag("p", Plainly), Str("no"), Void("img", "no"), Void("hr", ""), Tag("h1", Plainly), Str("no"), End("h1")>> \o Ending("p", om) \o <<End("nav")>>
    [] b.k = "box" -> <<Tag("div", b.col)>> \o AllTags(b.body, om) \o <<End("div")>>
    [] b.k = "bold" -> <<Tag("b", Plainly)>> \o AllTags(b.body, om) \o <<End("b")>>
AllTags(bs, om) == IF bs = <<>> THEN <<>> ELSE Tags(Head(bs), om) \o (IF om /\ Head(bs).k = "p" /\ Len(bs) > 1 /\ bs[2].k \in {"loose", "bold"} THEN <<End("p")>> ELSE <<>>) \o AllTags(Tail(bs), om)

(* ---------------------------------------------------------------- the machine *)
NoRun == [x |-> "", open |-> <<>>, lines |-> <<>>]
Start(opts) == [s |-> Begin(opts), st |-> <<>>, run |-> NoRun, cell |-> NoRun, quote |-> NoRun, items |-> <<>>, rows |-> <<>>, row |-> <<>>, code |-> ""]
In(z, ns) == \E i \in DOMAIN z.st : z.st[i].n \in ns
Depth(z, n) == Cardinality({i \in DOMAIN z.st : z.st[i].n = n})
Skipping(z) == In(z, {"nav"})
InCell(z) == In(z, {"td"}) /\ Depth(z, "table") > 0
Contained(z) == In(z, {"pre", "blockquote"}) \/ InCell(z)
Heads == {"h1", "h2"}
BlockTags == Heads \cup {"p", "li", "ul", "blockquote", "pre", "table", "tr", "td", "caption", "hr", "div", "nav"}
Colour(z) == IF z.st = <<>> THEN Plainly ELSE z.st[Len(z.st)].col
Mark(n) == CASE n = "b" -> <<"**">> [] n = "i" -> <<"*">> [] OTHER -> <<>>
RECURSIVE Marks(_, _)
Marks(st, acc) == IF st = <<>> THEN acc ELSE LET k == Mark(Head(st).n) IN Marks(Tail(st), IF k # <<>> /\ (\A i \in DOMAIN acc : acc[i] # k[1]) THEN acc \o k ELSE acc)
Which(z) == IF InCell(z) THEN "cell" ELSE IF In(z, {"blockquote"}) THEN "quote" ELSE "run"
RECURSIVE CloseMarks(_, _)
CloseMarks(r, keep) == IF Len(r.open) <= keep THEN r ELSE CloseMarks([r EXCEPT !.x = @ \o r.open[Len(r.open)], !.open = SubSeq(r.open, 1, Len(r.open) - 1)], keep)
RECURSIVE OpenMarks(_, _)
OpenMarks(r, want) == IF Len(r.open) >= Len(want) THEN r ELSE LET k == want[Len(r.open) + 1] IN OpenMarks([r EXCEPT !.x = @ \o k, !.open = Append(@, k)], want)
Write(z, x) == LET w == Which(z) IN [z EXCEPT ![w] = LET r == OpenMarks(@, Marks(z.st, <<>>)) IN [r EXCEPT !.x = @ \o x]]
EndLine(r) == LET w == CloseMarks(r, 0) IN [w EXCEPT !.lines = Line(@, w.x), !.x = ""]
FlushItems(z) == LET RECURSIVE A(_, _)
                     A(s, its) == IF its = <<>> THEN s ELSE A(Bullet(s, Head(its).t, Head(its).col), Tail(its))
                 IN [z EXCEPT !.s = A(z.s, z.items), !.items = <<>>]
Para(z, x) == LET f == FlushItems(z) IN [f EXCEPT !.s = Bullet(f.s, x, Colour(z))]
Take(r) == CloseMarks(r, 0).x
EndRun(z) ==
  IF InCell(z) THEN [z EXCEPT !.cell = EndLine(@)]
  ELSE IF In(z, {"blockquote"}) THEN [z EXCEPT !.quote = EndLine(@)]
  ELSE IF In(z, Heads) THEN z
  ELSE LET x == Take(z.run)  w == [z EXCEPT !.run = NoRun] IN
       IF x = "" THEN w ELSE IF In(z, {"li"}) THEN [w EXCEPT !.items = Append(@, [t |-> x, col |-> Colour(z)])] ELSE Para(w, x)
Finalize(z) == LET f == FlushItems(z) IN [f EXCEPT !.s = Shut(f.s)]
Pop(z) == [z EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
EndRow(z) == IF z.row = <<>> THEN z ELSE [z EXCEPT !.rows = Append(@, z.row), !.row = <<>>]
Finish(z, n) ==      \* n: the innermost open element
  IF n \in Heads /\ ~Contained(z)
  THEN LET x == Take(z.run)  w == [z EXCEPT !.run = NoRun] IN
       IF n = "h1" THEN [w EXCEPT !.s = On(w.s, [Cur(w.s) EXCEPT !.title = IF x = "" THEN "?" ELSE x, !.tcol = Colour(z)])]
       ELSE IF x = "" THEN w ELSE LET f == FlushItems(w) IN [f EXCEPT !.s = Add1(f.s, "**" \o x \o "**", Colour(z))]
  ELSE IF n = "td" /\ Depth(z, "table") = 1 THEN [z EXCEPT !.row = Append(@, Join(EndLine(z.cell).lines)), !.cell = NoRun]
  ELSE IF n \in {"b", "i"} THEN [z EXCEPT ![Which(z)] = CloseMarks(@, Len(Marks(SubSeq(z.st, 1, Len(z.st) - 1), <<>>)))]
  ELSE LET w == IF n \in BlockTags THEN EndRun(z) ELSE z
           outer == Depth(z, n) = 1 IN
    CASE n = "ul" -> FlushItems(w)
      [] n = "pre" /\ outer -> [w EXCEPT !.s = IF z.code = "" THEN w.s ELSE Code(w.s, z.code), !.code = ""]
      [] n = "tr" /\ Depth(z, "table") = 1 -> EndRow(w)
      [] n = "table" /\ outer -> LET e == FlushItems(EndRow(w)) IN [e EXCEPT !.s = Table(e.s, e.rows), !.rows = <<>>]
      [] n = "blockquote" /\ outer -> [w EXCEPT !.s = Notes(w.s, EndLine(w.quote).lines), !.quote = NoRun]
      [] OTHER -> w
RECURSIVE CloseTo(_, _)
CloseTo(z, k) == IF Len(z.st) <= k THEN z ELSE CloseTo(Pop(IF Skipping(z) THEN z ELSE Finish(z, z.st[Len(z.st)].n)), k)
(* the last open element among ns, unless one among stop is above it (0: none) *)
Find(z, ns, stop) == LET c == {i \in DOMAIN z.st : z.st[i].n \in ns \cup stop} IN
  IF c = {} THEN 0 ELSE LET t == CHOOSE i \in c : \A j \in c : j <= i IN IF z.st[t].n \in ns THEN t ELSE 0
CloseFrom(z, i) == IF i = 0 THEN z ELSE CloseTo(z, i - 1)
Implied(z, n) ==
  LET a == CASE n = "td" -> CloseFrom(z, Find(z, {"td", "caption"}, {"table"})) [] n = "tr" -> CloseFrom(CloseFrom(z, Find(z, {"td"}, {"table"})), Find(CloseFrom(z, Find(z, {"td"}, {"table"})), {"tr", "caption"}, {"table"}))
             [] n = "li" -> CloseFrom(z, Find(z, {"li"}, {"ul", "table", "td", "caption", "blockquote"})) [] OTHER -> z
  IN IF n \in BlockTags \ {"td", "tr", "caption"} THEN CloseFrom(a, Find(a, {"p"}, {"table", "td", "caption"})) ELSE a
OpenTag(z, e) ==
  IF Skipping(z) THEN [z EXCEPT !.st = Append(@, [n |-> e.n, col |-> Plainly])] ELSE
  LET i == Implied(z, e.n)
      r == IF e.n \in BlockTags THEN EndRun(i) ELSE i
      w == CASE e.n = "h1" /\ ~Contained(r) -> LET f == Finalize(r) IN [f EXCEPT !.s.cur = <<NewSlide("?")>>]
             [] e.n = "pre" -> [r EXCEPT !.code = ""] [] e.n = "ul" -> FlushItems(r) [] OTHER -> r
  IN [w EXCEPT !.st = Append(@, [n |-> e.n, col |-> [k \in DOMAIN e.col |-> IF e.col[k] # "" THEN e.col[k] ELSE Colour(w)[k]]])]
Step(z, e) ==
  CASE e.e = "open" -> OpenTag(z, e)
    [] e.e = "close" -> LET i == Find(z, {e.n}, IF e.n \in {"table", "td", "tr", "caption"} THEN {"table"} ELSE {"table", "td", "caption"}) IN
                        IF i = 0 THEN IF Skipping(z) \/ e.n \notin BlockTags THEN z ELSE EndRun(z) ELSE CloseTo(z, i - 1)
    [] e.e = "text" -> IF Skipping(z) THEN z ELSE IF In(z, {"pre"}) THEN [z EXCEPT !.code = @ \o e.x] ELSE Write(z, e.x)
    [] e.e = "void" /\ Skipping(z) -> z
    [] e.n = "hr" -> LET w == EndRun(Implied(z, "hr")) IN IF Contained(w) \/ In(w, Heads) THEN w ELSE Finalize(w)
    [] OTHER -> IF z.s.o.images THEN Para(z, e.x) ELSE z      \* img
RECURSIVE Run(_, _)
Run(z, es) == IF es = <<>> THEN z ELSE Run(Step(z, Head(es)), Tail(es))

Init == doc = <<>> /\ omit \in BOOLEAN /\ o \in Options /\ m = Start(o)
(* two texts next to each other would be one *)
Next == /\ Len(doc) < MaxLen
        /\ \E b \in Choices(Len(doc) + 1) :
             LET prev == IF doc = <<>> THEN "" ELSE doc[Len(doc)].k IN
             /\ ~(b.k = "loose" /\ prev = "loose")
             /\ doc' = Append(doc, b)
             /\ m' = Run(m, (IF omit /\ prev = "p" /\ b.k \in {"loose", "bold"} THEN <<End("p")>> ELSE <<>>) \o Tags(b, omit))
        /\ UNCHANGED <<omit, o>>
Spec == Init /\ [][Next]_vars

Closed == LET z == CloseTo(m, 0) IN Finalize(EndRun(z))
Machine == LET a == Closed.s.done IN SubSeq(a, 1, IF Len(a) < o.maxs THEN Len(a) ELSE o.maxs)
SameSlides == Machine = Slides(doc, o)
Reset == LET z == CloseTo(m, 0) IN z.row = <<>> /\ z.rows = <<>> /\ z.quote = NoRun /\ z.cell = NoRun /\ z.code = ""
Limits == Len(Machine) <= o.maxs /\ \A i \in DOMAIN Machine : Len(Machine[i].tables) <= 1
Hidden == \A i \in DOMAIN Machine : Machine[i].title # "no" /\ \A j \in DOMAIN Machine[i].body : Machine[i].body[j].t # "no"
(* every heading of the first level outside quotes and cells opens a slide *)
Emitted == (doc # <<>> /\ Len(doc) <= EmitLen /\ ~omit) => PrintT("@@" \o ToJson([doc |-> doc, o |-> o]))
=============================================================================
