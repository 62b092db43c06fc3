-------------------------------- MODULE Web --------------------------------
(* What a web page becomes as slides.  A page p: [url, title, h1, og, desc, ogdesc (sequences of *)
(* at most one text), blocks, special, big]: the document's title, its first h1, its OpenGraph   *)
(* title, its descriptions; what its body holds; special: the element marked as main content,     *)
(* if there is one, as [blocks, big] (big: it has more than a hundred characters of text).       *)
(* A block: [k, t, len (bytes), ...]: h p li quote code (texts), table [r, c], img [t: alt, src:  *)
(* "link" | "data"], skip [blocks] (script, advertisement, ...), box [blocks].                    *)
(* Options o: title (at most one), source, maxs, maxb, grouped, code, tables, images.             *)
EXTENDS Naturals, Sequences, FiniteSets

Cut(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
First(q, default) == IF q = <<>> THEN default ELSE IF q[1] = "" THEN default ELSE q[1]
PageTitle(p) == First(p.title, First(p.h1, IF p.og = <<>> THEN "Untitled" ELSE p.og[1]))
Description(p) == First(p.desc, First(p.ogdesc, ""))

(* what of the page is content: in order, as far as it is long (or short) enough to be any *)
IsContent(b, o) ==
  CASE b.k = "h" -> b.len > 0 /\ b.len < 300
    [] b.k = "p" -> b.len >= 10
    [] b.k = "li" -> b.len > 0 /\ b.len < 500
    [] b.k = "quote" -> b.len > 0
    [] b.k = "code" -> o.code /\ b.len > 0 /\ b.len <= 1000
    [] b.k = "table" -> o.tables /\ b.r > 0 /\ b.r <= 30
    [] b.k = "img" -> o.images /\ b.t # "" /\ b.src = "link"
    [] OTHER -> FALSE
RECURSIVE Content(_, _)
Content(bs, o) ==
  IF bs = <<>> THEN <<>> ELSE
  (CASE Head(bs).k = "box" -> Content(Head(bs).blocks, o)
     [] Head(bs).k = "skip" -> <<>>
     [] OTHER -> IF IsContent(Head(bs), o) THEN <<Head(bs)>> ELSE <<>>) \o Content(Tail(bs), o)

(* the bullet that shows a block; a long text is cut *)
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == (IF n < 10 THEN "" ELSE Dec(n \div 10)) \o Digits[(n % 10) + 1]
Short(b, n) == IF b.len > n THEN b.t \o "~cut;" ELSE b.t
Shown(b) ==
  CASE b.k = "p" -> Short(b, 200)
    [] b.k = "li" -> "~2022; " \o Short(b, 180)
    [] b.k = "quote" -> "~22;" \o Short(b, 180) \o "~22;"
    [] b.k = "code" -> "[Code] " \o Short(b, 150)
    [] b.k = "table" -> "[Table: " \o Dec(b.r) \o " rows ~d7; " \o Dec(b.c) \o " cols]"
    [] OTHER -> "[Image: " \o b.t \o "]"

(* the slides, block by block: s = [done, cur (the slide being filled, if any), title] *)
Begin == [done |-> <<>>, cur |-> <<>>, title |-> ""]
New(t) == <<[t |-> t, b |-> <<>>]>>
Shut(s) == IF s.cur = <<>> THEN s.done ELSE IF s.cur[1].b = <<>> THEN s.done ELSE Append(s.done, s.cur[1])
Take(s, b, maxb) ==
  IF b.k = "h" THEN [done |-> Shut(s), cur |-> New(b.t), title |-> b.t]
  ELSE LET t == IF s.cur = <<>> THEN (IF b.k = "li" THEN "Key Points" ELSE "Overview") ELSE s.title
           z == IF s.cur = <<>> THEN [s EXCEPT !.cur = New(t), !.title = t]
                ELSE IF Len(s.cur[1].b) >= maxb THEN [s EXCEPT !.done = Shut(s), !.cur = New(s.title \o " (cont.)")] ELSE s
       IN [z EXCEPT !.cur[1].b = Append(@, Shown(b))]
RECURSIVE Run(_, _, _)
Run(s, bs, maxb) == IF bs = <<>> THEN Shut(s) ELSE Run(Take(s, Head(bs), maxb), Tail(bs), maxb)
(* grouped by headings: what comes before the first heading belongs to it *)
Heads(bs) == {i \in DOMAIN bs : bs[i].k = "h"}
Grouped(bs) == IF Heads(bs) = {} THEN bs
               ELSE LET h == CHOOSE i \in Heads(bs) : \A j \in Heads(bs) : i <= j IN <<bs[h]>> \o SubSeq(bs, 1, h - 1) \o SubSeq(bs, h + 1, Len(bs))

Region(p) == IF p.special # <<>> /\ (p.special = <<>> \/ p.special[1].big) THEN p.special[1].blocks ELSE p.blocks
Body(p, o) == Content(Region(p), o)
HasContent(p, o) == ((p.special # <<>> /\ (p.special = <<>> \/ p.special[1].big)) \/ p.big) /\ Body(p, o) # <<>>
Title(p, o) == IF o.title = <<>> THEN PageTitle(p) ELSE o.title[1]
Front(p, o) == [t |-> Title(p, o), b |-> (IF Description(p) = "" THEN <<>> ELSE <<Description(p)>>) \o (IF o.source THEN <<"Source: " \o p.url>> ELSE <<>>)]
Slides(p, o) == Cut(<<Front(p, o)>> \o Run(Begin, IF o.grouped THEN Grouped(Body(p, o)) ELSE Body(p, o), o.maxb), o.maxs)
=============================================================================
