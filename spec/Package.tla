------------------------------ MODULE Package ------------------------------
(* A presentation package seen from outside: named parts, relationships, the      *)
(* relationship ids the parts use, content types, the slide list.  Closed(p) is   *)
(* the set of clauses the package breaks; it is empty for a closed package.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
Names(p) == {x.n : x \in Rng(p.parts)}
Distinct(s) == Cardinality(Rng(s)) = Len(s)
Opt(cond, name) == IF cond THEN {} ELSE {name}

ROOT == ""
PRES == "ppt/presentation.xml"

(* relationship type a usage must resolve to *)
RefType == [sldId |-> {"slide"}, sldMasterId |-> {"slideMaster"}, notesMasterId |-> {"notesMaster"}, handoutMasterId |-> {"handoutMaster"},
            sldLayoutId |-> {"slideLayout"}, blip |-> {"image"}, chart |-> {"chart"}, externalData |-> {"package"},
            hlinkClick |-> {"hyperlink", "slide"}, hlinkHover |-> {"hyperlink", "slide"}, regular |-> {"font"}, bold |-> {"font"}, italic |-> {"font"}, boldItalic |-> {"font"}]

CTP == "application/vnd.openxmlformats-officedocument.presentationml."
CTO == "application/vnd.openxmlformats-officedocument."
(* content type of the target of an internal relationship, per type *)
TargetCt == [slide |-> {CTP \o "slide+xml"}, slideMaster |-> {CTP \o "slideMaster+xml"}, slideLayout |-> {CTP \o "slideLayout+xml"},
             notesSlide |-> {CTP \o "notesSlide+xml"}, notesMaster |-> {CTP \o "notesMaster+xml"}, handoutMaster |-> {CTP \o "handoutMaster+xml"},
             theme |-> {CTO \o "theme+xml"}, chart |-> {CTO \o "drawingml.chart+xml"}, presProps |-> {CTP \o "presProps+xml"}, viewProps |-> {CTP \o "viewProps+xml"},
             tableStyles |-> {CTP \o "tableStyles+xml"}, package |-> {CTO \o "spreadsheetml.sheet"},
             officeDocument |-> {CTP \o "presentation.main+xml", CTP \o "slideshow.main+xml", CTP \o "template.main+xml"}]

(* exactly these numbers of relationships of a type, per kind of source part *)
Card(ct) ==
  CASE ct = CTP \o "slide+xml" -> {<<"slideLayout", 1, 1>>, <<"notesSlide", 0, 1>>}
    [] ct = CTP \o "slideLayout+xml" -> {<<"slideMaster", 1, 1>>}
    [] ct = CTP \o "slideMaster+xml" -> {<<"theme", 1, 1>>, <<"slideLayout", 1, 99>>}
    [] ct = CTP \o "notesSlide+xml" -> {<<"notesMaster", 1, 1>>, <<"slide", 1, 1>>}
    [] ct = CTP \o "notesMaster+xml" -> {<<"theme", 1, 1>>}
    [] ct = CTP \o "handoutMaster+xml" -> {<<"theme", 1, 1>>}
    [] ct \in TargetCt.officeDocument -> {<<"slideMaster", 1, 99>>, <<"notesMaster", 0, 1>>, <<"handoutMaster", 0, 1>>, <<"presProps", 0, 1>>, <<"viewProps", 0, 1>>, <<"tableStyles", 0, 1>>}
    [] OTHER -> {}

Closed(p) ==
  LET parts == Names(p)
      rels == Rng(p.rels)
      int == {r \in rels : ~r.ext}
      ct == [n \in parts |-> (CHOOSE x \in Rng(p.parts) : x.n = n).ct]
      decl == [s \in {r.src : r \in rels} |-> {r \in rels : r.src = s}]
      Of(s) == IF s \in DOMAIN decl THEN decl[s] ELSE {}
  IN Opt(p.zip, "archive")
  \cup Opt(p.dups = <<>>, "duplicate-entry")
  \cup Opt(p.bad = <<>>, "not-well-formed")
  \cup Opt(\A s \in DOMAIN decl : Cardinality({i \in DOMAIN p.rels : p.rels[i].src = s}) = Cardinality({r.id : r \in decl[s]}), "relationship-id-twice")
  \cup Opt(\A r \in rels : r.id # "", "relationship-without-id")
  \cup Opt(\A r \in rels : r.src = ROOT \/ r.src \in parts, "relationships-of-missing-part")
  \cup Opt(\A r \in int : r.tg \in parts, "relationship-target-missing")
  \cup Opt(Distinct([i \in DOMAIN p.overrides |-> p.overrides[i][1]]), "override-twice")
  \cup Opt(\A o \in Rng(p.overrides) : o[1] \in parts, "override-of-missing-part")
  \cup Opt(p.slash = <<>>, "override-not-absolute")
  \cup Opt(Distinct([i \in DOMAIN p.defaults |-> p.defaults[i][1]]), "default-twice")
  \cup Opt(\A n \in parts : ct[n] # "", "part-without-content-type")
  \cup Opt(\A u \in Rng(p.refs) : \E r \in Of(u.src) : r.id = u.id, "undeclared-relationship-id")
  \cup Opt(\A u \in Rng(p.refs) : u.el \in DOMAIN RefType => \A r \in Of(u.src) : r.id = u.id => r.ty \in RefType[u.el], "relationship-of-wrong-type-used")
  \cup Opt(\A r \in int : (r.ty \in DOMAIN TargetCt /\ r.tg \in parts) => ct[r.tg] \in TargetCt[r.ty], "target-of-wrong-content-type")
  \cup Opt(\A n \in parts : \A k \in Card(ct[n]) : LET c == Cardinality({r \in Of(n) : r.ty = k[1]}) IN c >= k[2] /\ c <= k[3], "relationship-count")
  \cup Opt(Cardinality({r \in Of(ROOT) : r.ty = "officeDocument"}) = 1, "no-main-document")
  \cup Opt(Distinct([i \in DOMAIN p.sldIds |-> p.sldIds[i].id]) /\ \A s \in Rng(p.sldIds) : s.id >= 256, "slide-id")
  \cup Opt(Distinct([i \in DOMAIN p.sldIds |-> p.sldIds[i].tg]), "slide-listed-twice")
  \cup Opt({s.tg : s \in Rng(p.sldIds)} = {n \in parts : ct[n] = CTP \o "slide+xml"}, "slide-list-incomplete")
  \cup Opt({s.tg : s \in Rng(p.sldIds)} = {r.tg : r \in {q \in Of(PRES) : q.ty = "slide"}}, "slide-relationships")
  \cup Opt(Distinct(p.layoutIds), "layout-id-twice")
  \cup Opt(\A x \in Rng(p.shapeIds) : Distinct(x.ids), "shape-id-twice")
=============================================================================
