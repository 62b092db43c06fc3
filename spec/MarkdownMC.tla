----------------------------- MODULE MarkdownMC -----------------------------
(* The parser is a machine fed with the events of a Markdown tokenizer; it has buffers for     *)
(* text, list items and quotes and flags for what is open.  For every document of at most      *)
(* MaxLen blocks the machine must end with the slides the document means (module Markdown).    *)
EXTENDS Markdown, TLC, Json
CONSTANTS MaxLen, EmitLen
VARIABLES doc, m
vars == <<doc, m>>

T(x) == <<[k |-> "text", x |-> x, y |-> ""]>>
P(x) == [k |-> "p", t |-> T(x)]
H(n, x) == [k |-> "h", n |-> n, t |-> T(x)]
L(its) == [k |-> "list", ord |-> FALSE, items |-> its]
O(its) == [k |-> "list", ord |-> TRUE, items |-> its]
Q(b) == [k |-> "quote", body |-> b]
C(x) == [k |-> "code", lang |-> "text", c |-> x]
Tb(x) == [k |-> "table", rows |-> <<<<T(x \o "1"), T(x \o "2")>>, <<T(x \o "3")>>>>]
Img(x) == [k |-> "p", t |-> <<[k |-> "text", x |-> x \o "a ", y |-> ""], [k |-> "img", x |-> x \o "b", y |-> x \o "c"]>>]
(* texts differ by the position i of the block *)
Blocks(i) == LET x == <<"A", "B", "C", "D", "E", "F">>[i] IN
  {H(1, x), H(2, x), P(x), Img(x), C(x), Tb(x), [k |-> "rule"], [k |-> "html"],
   [k |-> "h", n |-> 1, t |-> <<[k |-> "img", x |-> x, y |-> x \o "c"]>>],
   L(<<<<P(x \o "1")>>, <<P(x \o "2")>>>>), O(<<<<P(x \o "1"), P(x \o "2")>>>>),
   L(<<<<P(x \o "1"), O(<<<<P(x \o "2")>>, <<P(x \o "3"), L(<<<<P(x \o "4")>>>>), P(x \o "5")>>>>)>>, <<P(x \o "6")>>>>),
   L(<<<<P(x \o "1"), C(x \o "2"), P(x \o "3")>>, <<Q(<<P(x \o "4")>>), P(x \o "5")>>>>), L(<<<<P(x \o "1"), Tb(x), P(x \o "5")>>>>),
   Q(<<P(x)>>), Q(<<P(x \o "1"), H(2, x \o "2"), Q(<<P(x \o "3"), C(x \o "4")>>), P(x \o "5")>>), Q(<<L(<<<<P(x \o "1")>>, <<P(x \o "2"), P(x \o "3")>>>>)>>)}

(* ---------------------------------------------------------------- events *)
Ev(e) == [e |-> e]
RECURSIVE Events(_)
RECURSIVE AllEvents(_)
AllEvents(bs) == IF bs = <<>> THEN <<>> ELSE Events(Head(bs)) \o AllEvents(Tail(bs))
Inline(t) == [i \in DOMAIN t |-> [e |-> "inline", q |-> t[i]]]
RECURSIVE ItemEvents(_)
ItemEvents(its) == IF its = <<>> THEN <<>> ELSE <<Ev("item")>> \o AllEvents(Head(its)) \o <<Ev("/item")>> \o ItemEvents(Tail(its))
RECURSIVE CellEvents(_)
CellEvents(cs) == IF cs = <<>> THEN <<>> ELSE <<Ev("cell")>> \o Inline(Head(cs)) \o <<Ev("/cell")>> \o CellEvents(Tail(cs))
RECURSIVE RowEvents(_)
RowEvents(rs) == IF rs = <<>> THEN <<>> ELSE <<Ev("row")>> \o CellEvents(Head(rs)) \o <<Ev("/row")>> \o RowEvents(Tail(rs))
Events(b) == CASE b.k = "h" -> <<[e |-> "h", n |-> b.n]>> \o Inline(b.t) \o <<[e |-> "/h", n |-> b.n]>>
               [] b.k = "p" -> <<Ev("p")>> \o Inline(b.t) \o <<Ev("/p")>>
               [] b.k = "list" -> <<[e |-> "list", ord |-> b.ord]>> \o ItemEvents(b.items) \o <<Ev("/list")>>
               [] b.k = "quote" -> <<Ev("quote")>> \o AllEvents(b.body) \o <<Ev("/quote")>>
               [] b.k = "code" -> <<[e |-> "code", b |-> b]>>
               [] b.k = "table" -> <<Ev("table")>> \o RowEvents(b.rows) \o <<Ev("/table")>>
               [] OTHER -> <<Ev(b.k)>>

(* ---------------------------------------------------------------- the machine *)
Start == [s |-> Begin, text |-> <<>>, items |-> <<>>, lists |-> <<>>, quote |-> 0, lines |-> <<>>, line |-> "", rows |-> <<>>, cells |-> <<>>, cell |-> <<>>, tab |-> FALSE]
(* text: the words of the current block (list item), one entry per paragraph *)
Flat(t) == LET RECURSIVE F(_)
               F(x) == IF x = <<>> THEN "" ELSE Join(Head(x), " ", F(Tail(x)))
           IN F(t)
Inside(z) == z.quote > 0 \/ z.lists # <<>>
Break(z) == IF z.quote > 0 THEN [z EXCEPT !.lines = IF z.line = "" THEN @ ELSE Append(@, z.line), !.line = ""] ELSE [z EXCEPT !.text = IF @ = <<>> THEN @ ELSE Append(@, "")]
Put(z, x) == IF z.tab THEN z
             ELSE IF z.quote > 0 THEN [z EXCEPT !.line = @ \o x]
             ELSE IF z.text = <<>> THEN [z EXCEPT !.text = <<x>>] ELSE [z EXCEPT !.text[Len(z.text)] = @ \o x]
PushItem(z) == IF z.lists = <<>> THEN z
               ELSE [z EXCEPT !.items = IF Flat(z.text) = "" THEN @ ELSE Append(@, [t |-> Flat(z.text), lvl |-> Len(z.lists) - 1, num |-> z.lists[Len(z.lists)]]), !.text = <<>>]
FlushItems(z) == LET RECURSIVE A(_, _)
                     A(s, its) == IF its = <<>> THEN s ELSE A(Bullet(s, Head(its).t, Head(its).lvl, Head(its).num), Tail(its))
                 IN [z EXCEPT !.s = A(z.s, z.items), !.items = <<>>]
Step(z, e) ==
  CASE e.e \in {"h", "/h", "rule"} /\ Inside(z) -> Break(z)
    [] e.e = "h" -> LET f == FlushItems(z) IN [f EXCEPT !.s = IF e.n = 1 THEN [Shut(f.s) EXCEPT !.cur = <<NewSlide("")>>] ELSE f.s, !.text = <<>>]
    [] e.e = "/h" -> [z EXCEPT !.s = IF e.n = 1 THEN On(z.s, [Cur(z.s) EXCEPT !.title = Flat(z.text)]) ELSE Bullet(z.s, "**" \o Flat(z.text) \o "**", 0, FALSE), !.text = <<>>]
    [] e.e = "p" -> IF Inside(z) THEN Break(z) ELSE [z EXCEPT !.text = <<>>]
    [] e.e = "/p" -> IF Inside(z) THEN z ELSE [z EXCEPT !.s = Bullet(z.s, Flat(z.text), 0, FALSE), !.text = <<>>]
    [] e.e = "inline" -> LET w == IF z.tab THEN [z EXCEPT !.cell = Append(@, e.q)] ELSE Put(z, Piece(e.q)) IN [w EXCEPT !.s = Pictures(w.s, <<e.q>>)]
    [] e.e = "list" -> LET w == IF z.quote > 0 THEN Break(z) ELSE PushItem(z) IN [w EXCEPT !.lists = Append(@, e.ord)]
    [] e.e = "/list" -> LET w == [z EXCEPT !.lists = SubSeq(@, 1, Len(@) - 1)] IN IF w.quote > 0 \/ w.lists # <<>> THEN w ELSE FlushItems(w)
    [] e.e = "item" -> IF z.quote > 0 THEN Break(z) ELSE [z EXCEPT !.text = <<>>]
    [] e.e = "/item" -> IF z.quote > 0 THEN z ELSE PushItem(z)
    [] e.e = "quote" -> Break([z EXCEPT !.quote = @ + 1])
    [] e.e = "/quote" -> LET w == [Break(z) EXCEPT !.quote = @ - 1] IN
                         IF w.quote > 0 THEN w ELSE Break([w EXCEPT !.s = Notes(w.s, w.lines), !.lines = <<>>])
    [] e.e = "code" -> Break([z EXCEPT !.s = Code(z.s, e.b)])
    [] e.e = "table" -> [z EXCEPT !.tab = TRUE, !.rows = <<>>]
    [] e.e = "row" -> [z EXCEPT !.cells = <<>>]
    [] e.e = "/row" -> [z EXCEPT !.rows = Append(@, z.cells)]
    [] e.e = "cell" -> [z EXCEPT !.cell = <<>>]
    [] e.e = "/cell" -> [z EXCEPT !.cells = Append(@, z.cell)]
    [] e.e = "/table" -> LET w == IF HasTable(z.s) THEN LET u == FlushItems(PushItem(z)) IN [u EXCEPT !.s = Continue(u.s)] ELSE z
                         IN Break([w EXCEPT !.s = Table(w.s, [rows |-> w.rows]), !.tab = FALSE])
    [] e.e = "rule" -> LET f == FlushItems(z) IN [f EXCEPT !.s = Continue(f.s)]
    [] OTHER -> z
RECURSIVE Run(_, _)
Run(z, es) == IF es = <<>> THEN z ELSE Run(Step(z, Head(es)), Tail(es))

Init == doc = <<>> /\ m = Start
Next == /\ Len(doc) < MaxLen
        /\ \E b \in Blocks(Len(doc) + 1) : doc' = Append(doc, b) /\ m' = Run(m, Events(b))
Spec == Init /\ [][Next]_vars

Machine == Shut(FlushItems(m).s).done
SameSlides == Machine = Slides(doc)
Reset == m.text = <<>> /\ m.items = <<>> /\ m.lists = <<>> /\ m.quote = 0 /\ m.lines = <<>> /\ m.line = "" /\ ~m.tab
OneTable == \A i \in DOMAIN Machine : Len(Machine[i].tables) <= 1
(* every heading opens a slide, every rule and further table continues one *)
Count == LET hs == Cardinality({i \in DOMAIN doc : doc[i].k = "h" /\ doc[i].n = 1}) IN Len(Machine) >= hs
Emitted == (doc # <<>> /\ Len(doc) <= EmitLen) => PrintT("@@" \o ToJson(doc))
=============================================================================
