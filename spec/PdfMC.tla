------------------------------- MODULE PdfMC -------------------------------
(* Writing the PDF: a text becomes a literal string of bytes, which the reader of the PDF      *)
(* specification (7.3.4.2) turns back into what the font's encoding shows; a deck becomes      *)
(* numbered objects, where every page has to name its parent before the parent is written.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, EmitLen, MaxSlides, MaxLines, Room
VARIABLES txt, pc, out, deck, objs, pages
vars == <<txt, pc, out, deck, objs, pages>>

(* ---------------------------------------------------------------- texts *)
Alphabet == {"a", "(", ")", "\\", "n", "0", "7", "LF", "CR", "HIGH", "DASH", "WIDE"}
(* the encoding: a byte for what it has (DASH stands at another place than in Unicode), ? for the rest *)
Byte(c) == CASE c \in {"LF", "CR"} -> " " [] c = "HIGH" -> "b233" [] c = "DASH" -> "b151" [] c = "WIDE" -> "?" [] OTHER -> c
RECURSIVE Put(_)
Put(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in {"(", ")", "\\"} THEN <<"\\", Head(s)>> ELSE <<Byte(Head(s))>>) \o Put(Tail(s))
Write(s) == <<"(">> \o Put(s) \o <<")">>
Octal == {"0", "7"}
RECURSIVE Digits(_, _)
Digits(s, n) == IF n = 3 \/ s = <<>> \/ Head(s) \notin Octal THEN n ELSE Digits(Tail(s), n + 1)
RECURSIVE Take(_, _, _)
Take(s, depth, acc) ==
  IF s = <<>> THEN [t |-> Append(acc, "END"), rest |-> s]
  ELSE IF Head(s) = "\\" THEN
    (IF Len(s) = 1 THEN [t |-> Append(acc, "END"), rest |-> <<>>]
     ELSE IF s[2] = "n" THEN Take(SubSeq(s, 3, Len(s)), depth, Append(acc, "LF"))
     ELSE IF s[2] \in Octal THEN Take(SubSeq(s, 2 + Digits(Tail(s), 0), Len(s)), depth, Append(acc, "octal"))
     ELSE IF s[2] \in {"LF", "CR"} THEN Take(SubSeq(s, 3, Len(s)), depth, acc)
     ELSE Take(SubSeq(s, 3, Len(s)), depth, Append(acc, s[2])))
  ELSE IF Head(s) = "(" THEN Take(Tail(s), depth + 1, Append(acc, "("))
  ELSE IF Head(s) = ")" THEN (IF depth = 0 THEN [t |-> acc, rest |-> Tail(s)] ELSE Take(Tail(s), depth - 1, Append(acc, ")")))
  ELSE Take(Tail(s), depth, Append(acc, IF Head(s) = "CR" THEN "LF" ELSE Head(s)))
Read(o) == IF o = <<>> \/ Head(o) # "(" THEN [t |-> <<"END">>, rest |-> <<>>] ELSE Take(Tail(o), 0, <<>>)
Glyph(b) == CASE b = "b233" -> "HIGH" [] b = "b151" -> "DASH" [] OTHER -> b
Shown(c) == CASE c \in {"LF", "CR"} -> " " [] c = "WIDE" -> "?" [] OTHER -> c

(* ---------------------------------------------------------------- objects *)
Fonts == 5
(* an object: what it is and the numbers of the objects it refers to *)
Obj(k, refs, n) == [k |-> k, refs |-> refs, n |-> n]
PagesAt(d) == Fonts + 2 * Len(d) + 1
Fits(n) == IF n < Room THEN n ELSE Room

Init == txt = <<>> /\ pc = "make" /\ out = <<>> /\ deck = <<>> /\ objs = <<>> /\ pages = <<>>
Type == pc = "make" /\ deck = <<>> /\ Len(txt) < MaxLen /\ \E c \in Alphabet : txt' = Append(txt, c) /\ UNCHANGED <<pc, out, deck, objs, pages>>
Slide == pc = "make" /\ txt = <<>> /\ Len(deck) < MaxSlides /\ \E n \in 0..MaxLines : deck' = Append(deck, n) /\ UNCHANGED <<txt, pc, out, objs, pages>>
WriteText == pc = "make" /\ deck = <<>> /\ pc' = "text" /\ out' = Write(txt) /\ UNCHANGED <<txt, deck, objs, pages>>
StartDoc == pc = "make" /\ txt = <<>> /\ deck # <<>> /\ pc' = "doc" /\ objs' = [i \in 1..Fonts |-> Obj("font", {}, 0)] /\ UNCHANGED <<txt, out, deck, pages>>
DrawPage == pc = "doc" /\ Len(pages) < Len(deck)
  /\ LET i == Len(pages) + 1  at == Len(objs) + 1 IN
     /\ objs' = objs \o <<Obj("stream", {}, Fits(deck[i])), Obj("page", {at, PagesAt(deck)} \cup 1..Fonts, i)>>
     /\ pages' = Append(pages, at + 1)
  /\ UNCHANGED <<txt, pc, out, deck>>
EndDoc == pc = "doc" /\ Len(pages) = Len(deck) /\ pc' = "done"
  /\ objs' = objs \o <<Obj("pages", {pages[i] : i \in DOMAIN pages}, Len(pages)), Obj("catalog", {PagesAt(deck)}, 0)>> /\ UNCHANGED <<txt, out, deck, pages>>
Next == Type \/ Slide \/ WriteText \/ StartDoc \/ DrawPage \/ EndDoc
Spec == Init /\ [][Next]_vars

ReadsBack == pc = "text" => LET r == Read(out) IN r.rest = <<>> /\ [i \in DOMAIN r.t |-> Glyph(r.t[i])] = [i \in DOMAIN txt |-> Shown(txt[i])]
Closed == pc = "done" =>
  /\ \A i \in DOMAIN objs : objs[i].refs \subseteq DOMAIN objs
  /\ objs[Len(objs)].k = "catalog" /\ \A r \in objs[Len(objs)].refs : objs[r].k = "pages" /\ objs[r].n = Len(deck)
  /\ \A i \in DOMAIN pages : objs[pages[i]].k = "page" /\ objs[pages[i]].n = i /\ PagesAt(deck) \in objs[pages[i]].refs /\ objs[pages[i] - 1].n = Fits(deck[i])
  /\ \A i \in DOMAIN pages : \A r \in objs[pages[i]].refs : objs[r].k \in {"font", "stream", "pages"}
  /\ \A i, j \in DOMAIN pages : i # j => {r \in objs[pages[i]].refs : objs[r].k = "stream"} \cap {r \in objs[pages[j]].refs : objs[r].k = "stream"} = {}
Emitted == (pc = "text" /\ Len(txt) <= EmitLen => PrintT("@@" \o ToJson([t |-> txt, d |-> <<>>])))
        /\ (pc = "done" => PrintT("@@" \o ToJson([t |-> <<>>, d |-> deck])))
=============================================================================
