------------------------------- MODULE Damage -------------------------------
(* Damage seen from outside: what is wrong with a package, as a validator and a repair tool   *)
(* must see it, and what a repaired package must be.  p is a package view (see Package) with   *)
(* p.names (all part names), p.num (slide part -> its number) and p.rp (source -> rels part).  *)
EXTENDS Package

CTYPES == "[Content_Types].xml"
RELS == "_rels/.rels"
PRESRELS == "ppt/_rels/presentation.xml.rels"
Core == {CTYPES, RELS, PRES, PRESRELS}
Required == Core \cup {"ppt/presProps.xml", "ppt/viewProps.xml", "ppt/tableStyles.xml", "ppt/theme/theme1.xml", "ppt/slideMasters/slideMaster1.xml",
                       "ppt/slideLayouts/slideLayout1.xml", "docProps/core.xml", "docProps/app.xml"}

All(p) == Rng(p.names)
SlideParts(p) == {x.n : x \in Rng(p.num)}
Num(p, n) == (CHOOSE x \in Rng(p.num) : x.n = n).k
RECURSIVE ByNumber(_, _)
ByNumber(p, S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : Num(p, x) <= Num(p, y) IN <<m>> \o ByNumber(p, S \ {m})
Rp(p, s) == (CHOOSE x \in Rng(p.rp) : x.s = s).r

Broken(p) == {r \in Rng(p.rels) : ~r.ext /\ r.tg \notin All(p)}
SlideRels(p) == {r \in Rng(p.rels) : r.src = PRES /\ r.ty = "slide" /\ ~r.ext}
(* the slide an entry of the slide list leads to *)
LeadsTo(p, e) == LET t == {r.tg : r \in {q \in SlideRels(p) : q.id = e.rid}} \cap All(p) IN IF t = {} THEN "" ELSE CHOOSE x \in t : TRUE
RECURSIVE Lead(_, _, _)
Lead(p, i, seen) == IF i > Len(p.sldIds) THEN <<>> ELSE LET t == LeadsTo(p, p.sldIds[i]) IN IF t = "" \/ t \in seen THEN Lead(p, i + 1, seen) ELSE <<t>> \o Lead(p, i + 1, seen \cup {t})
Listed(p) == Lead(p, 1, {})
Unlisted(p) == SlideParts(p) \ Rng(Listed(p))
Untyped(p) == IF CTYPES \in All(p) THEN {x.n : x \in {y \in Rng(p.parts) : y.ct = ""}} ELSE {}
(* the slides a repaired package presents: the surviving list, then what was not listed *)
Presented(p) == Listed(p) \o ByNumber(p, Unlisted(p))
=============================================================================
