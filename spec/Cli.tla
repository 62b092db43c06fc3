-------------------------------- MODULE Cli --------------------------------
(* The command line.  A file name is [d, s, e]: directory, stem, extension (each "" if it has  *)
(* none).  The state: fs, a sequence of [n, v] (no name twice), and dirs, the directories there *)
(* are ("" is always one).  A file's value v has a kind k:                                      *)
(*   deck  [title, slides]   a presentation; a slide is [t, b, tab, o, pics]: title, bullets,   *)
(*         table rows, other texts, pictures                                                    *)
(*   md, html  [slides]      a document of those slides                                         *)
(*   pdf   [pages]           titles; a picture of a page is [k |-> "png", w |-> its number]     *)
(*   web   [title, slides]   an exported page          junk [x]   anything else                 *)
(* A command c: [name, in: names, out: "" or a name, ...options].  tool: what the pdftoppm that *)
(* the machine has does ("none", "works", "fails", "garbles").                                  *)
EXTENDS Naturals, Sequences, FiniteSets

Has(fs, n) == \E i \in DOMAIN fs : fs[i].n = n
Val(fs, n) == fs[CHOOSE i \in DOMAIN fs : fs[i].n = n].v
Kind(fs, n) == IF Has(fs, n) THEN Val(fs, n).k ELSE "none"
Put(fs, n, v) == IF Has(fs, n) THEN [i \in DOMAIN fs |-> IF fs[i].n = n THEN [n |-> n, v |-> v] ELSE fs[i]] ELSE Append(fs, [n |-> n, v |-> v])
RECURSIVE PutAll(_, _)
PutAll(fs, ch) == IF ch = <<>> THEN fs ELSE PutAll(Put(fs, ch[1].n, ch[1].v), Tail(ch))
Base(n) == IF n.e = "" THEN n.s ELSE n.s \o "." \o n.e
Path(n) == IF n.d = "" THEN Base(n) ELSE n.d \o "/" \o Base(n)
Names(fs) == {fs[i].n : i \in DOMAIN fs}
IsFile(fs, p) == \E n \in Names(fs) : Path(n) = p
Out(c) == IF c.out = <<>> THEN [c.in[1] EXCEPT !.e = "pptx"] ELSE c.out[1]
(* can this file be written?  some commands make the directory it is to be in *)
Writable(s, n, makes) == Path(n) \notin s.dirs /\ (n.d \in s.dirs \/ (makes /\ ~IsFile(s.fs, n.d)))
Title(c, default) == IF c.title = <<>> THEN default ELSE c.title[1]

Cut(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == (IF n < 10 THEN "" ELSE Dec(n \div 10)) \o Digits[(n % 10) + 1]
Slide(t, b) == [t |-> t, b |-> b, tab |-> <<>>, o |-> <<>>, pics |-> <<>>]
Deck(title, slides) == [k |-> "deck", title |-> title, slides |-> slides]

(* what an HTML document becomes under the options *)
Opted(slides, c) ==
  Cut([i \in DOMAIN slides |-> [slides[i] EXCEPT !.b = Cut(@, c.maxb), !.tab = IF c.tables THEN @ ELSE <<>>, !.o = IF c.code THEN @ ELSE <<>>]], c.maxs)
(* what a presentation read from a file keeps when it is written again: all but the pictures *)
Kept(slides) == [i \in DOMAIN slides |-> [slides[i] EXCEPT !.pics = <<>>]]
Page(slides) == [i \in DOMAIN slides |-> [t |-> slides[i].t, b |-> slides[i].b, tab |-> slides[i].tab]]
Titles(slides) == [i \in DOMAIN slides |-> slides[i].t]

Format(c) ==
  IF c.format # "" THEN c.format
  ELSE LET e == Out(c).e IN
       IF e \in {"html", "HTML", "Html"} THEN "html" ELSE IF e \in {"png", "PNG", "Png"} THEN "png" ELSE "pdf"

(* the outcome: ok, the changes to the file system, directories it may make *)
Fail == [ok |-> FALSE, ch |-> <<>>]
One(n, v) == [ok |-> TRUE, ch |-> <<[n |-> n, v |-> v]>>]
Nothing == [ok |-> TRUE, ch |-> <<>>]
Outcome(s, c) ==
  LET k == IF c.in = <<>> THEN "none" ELSE Kind(s.fs, c.in[1])
      v == Val(s.fs, c.in[1])
  IN
  CASE c.name = "create" ->
         IF ~Writable(s, Out(c), TRUE) \/ (c.in # <<>> /\ k # "deck") THEN Fail
         ELSE One(Out(c), Deck(Title(c, "Presentation"),
                [i \in 1..c.n |-> IF c.in # <<>> THEN Slide("Slide " \o Dec(i), <<"Content">>) ELSE Slide(IF i = 1 THEN "Presentation" ELSE "Slide " \o Dec(i), <<>>)]))
    [] c.name = "md2ppt" ->
         IF k # "md" \/ ~Writable(s, Out(c), TRUE) THEN Fail
         ELSE IF v.slides = <<>> THEN Fail
         ELSE One(Out(c), Deck(Title(c, "Presentation from Markdown"), v.slides))
    [] c.name = "html2ppt" ->
         IF k # "html" \/ ~Writable(s, Out(c), TRUE) THEN Fail
         ELSE IF Opted(v.slides, c) = <<>> THEN Fail
         ELSE One(Out(c), Deck(Title(c, "Presentation from HTML"), Opted(v.slides, c)))
    [] c.name = "merge" ->
         IF (\E i \in DOMAIN c.in : Kind(s.fs, c.in[i]) # "deck") \/ ~Writable(s, Out(c), FALSE) THEN Fail
         ELSE LET all == Cat([i \in DOMAIN c.in |-> (IF "strict" \in DOMAIN c THEN Val(s.fs, c.in[i]).slides ELSE Kept(Val(s.fs, c.in[i]).slides))]) IN
              IF all = <<>> THEN Fail ELSE One(Out(c), Deck(v.title, all))      \* a presentation is not saved without slides
    [] c.name = "export" ->
         IF k # "deck" THEN Fail
         ELSE CASE Format(c) = "html" -> IF Writable(s, Out(c), FALSE) THEN One(Out(c), [k |-> "web", title |-> v.title, slides |-> Page(v.slides)]) ELSE Fail
                [] Format(c) = "pdf" -> IF Writable(s, Out(c), FALSE) /\ v.slides # <<>> THEN One(Out(c), [k |-> "pdf", pages |-> Titles(v.slides)]) ELSE Fail
                [] OTHER -> IF c.tool # "works" \/ v.slides = <<>> \/ IsFile(s.fs, Path(Out(c))) \/ (Path(Out(c)) \notin s.dirs /\ IsFile(s.fs, Out(c).d)) THEN Fail
                            ELSE [ok |-> TRUE, ch |-> [i \in DOMAIN v.slides |-> [n |-> [d |-> Path(Out(c)), s |-> "slide-" \o Dec(i), e |-> "png"], v |-> [k |-> "png", w |-> i]]]]
    [] c.name = "pdf2ppt" ->
         IF k # "pdf" \/ c.tool # "works" \/ ~Writable(s, Out(c), FALSE) THEN Fail
         ELSE One(Out(c), Deck(c.in[1].s, [i \in DOMAIN v.pages |-> [Slide("", <<>>) EXCEPT !.pics = <<i>>]]))
    [] c.name = "validate" -> IF k = "deck" THEN Nothing ELSE Fail
    [] c.name = "info" -> IF k # "none" \/ Path(c.in[1]) \in s.dirs THEN Nothing ELSE Fail
    [] OTHER -> Fail         \* a command line that is none

After(s, c) == LET o == Outcome(s, c) IN
  [fs |-> PutAll(s.fs, o.ch), dirs |-> s.dirs \cup {o.ch[i].n.d : i \in DOMAIN o.ch}]
=============================================================================
