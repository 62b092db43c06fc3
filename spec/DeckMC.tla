------------------------------- MODULE DeckMC -------------------------------
(* Abstract generator: from the slides of a deck (which pictures, charts, notes,  *)
(* ink, links each has) to the package: numbering of parts, relationship ids per  *)
(* slide, content types.  Checked for every small deck: the package is closed and *)
(* every object reaches exactly its own payload.  The decks are replayed into the *)
(* real generator.                                                                *)
EXTENDS Package, Deck, Json
CONSTANTS MaxSlides, Pics, MaxCharts, Links, Opts, Emit
VARIABLES slides, opts, done
vars == <<slides, opts, done>>

(* a picture is a payload letter; the same letter under two types is two payloads *)
Payload(x) == IF x = "Aj" THEN "A" ELSE x
Img(x) == [sha |-> Payload(x), ext |-> IF x = "Aj" THEN "jpg" ELSE "png"]
PicSets == { <<>> } \cup { <<a>> : a \in Pics } \cup { <<a, b>> : a, b \in Pics }
SlideSet == [pics : PicSets, charts : 0..MaxCharts, notes : BOOLEAN, ink : BOOLEAN, link : Links]

(* opts: presentation-level settings that add parts *)
Init == slides = <<>> /\ done = FALSE /\ opts \in SUBSET Opts
AddSlide == /\ ~done /\ Len(slides) < MaxSlides
            /\ \E s \in SlideSet : slides' = Append(slides, s)
            /\ UNCHANGED <<opts, done>>
Save == ~done /\ slides # <<>> /\ done' = TRUE /\ UNCHANGED <<slides, opts>>
Next == AddSlide \/ Save
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------ the abstract generator *)
N == Len(slides)
SlideP(i) == "ppt/slides/slide" \o ToString(i) \o ".xml"
ChartNo(i, j) == Sum([k \in 1..(i - 1) |-> slides[k].charts]) + j
NotesNo(i) == Cardinality({k \in 1..i : slides[k].notes})
ChartP(i, j) == "ppt/charts/chart" \o ToString(ChartNo(i, j)) \o ".xml"
BookP(i, j) == "ppt/embeddings/Microsoft_Excel_Sheet" \o ToString(ChartNo(i, j)) \o ".xlsx"
NotesP(i) == "ppt/notesSlides/notesSlide" \o ToString(NotesNo(i)) \o ".xml"
InkP(i) == "ppt/ink/ink" \o ToString(i) \o ".xml"
Med == Uniq(Flat([i \in 1..N |-> [j \in DOMAIN slides[i].pics |-> Img(slides[i].pics[j])]]), <<>>)
MedNo(x) == CHOOSE k \in DOMAIN Med : Med[k].sha = Img(x).sha /\ Med[k].ext = Img(x).ext
MedP(x) == MediaName(Img(x), MedNo(x))
AnyNotes == \E i \in 1..N : slides[i].notes

(* relationships of slide i in order: layout, notes, pictures, charts, ink, link *)
SlideRels(i) ==
  LET s == slides[i]
      targets == << [ty |-> "slideLayout", tg |-> "ppt/slideLayouts/slideLayout2.xml", ext |-> FALSE] >>
                 \o (IF s.notes THEN << [ty |-> "notesSlide", tg |-> NotesP(i), ext |-> FALSE] >> ELSE <<>>)
                 \o [j \in DOMAIN s.pics |-> [ty |-> "image", tg |-> MedP(s.pics[j]), ext |-> FALSE]]
                 \o [j \in 1..s.charts |-> [ty |-> "chart", tg |-> ChartP(i, j), ext |-> FALSE]]
                 \o (IF s.ink THEN << [ty |-> "ink", tg |-> InkP(i), ext |-> FALSE] >> ELSE <<>>)
                 \o (IF s.link = "url" THEN << [ty |-> "hyperlink", tg |-> "https://a.example/" \o ToString(i), ext |-> TRUE] >> ELSE <<>>)
                 \o (IF s.link = "slide" THEN << [ty |-> "slide", tg |-> SlideP(1), ext |-> FALSE] >> ELSE <<>>)
  IN [k \in DOMAIN targets |-> [src |-> SlideP(i), id |-> "rId" \o ToString(k), ty |-> targets[k].ty, tg |-> targets[k].tg, ext |-> targets[k].ext]]
PicRid(i, j) == "rId" \o ToString(1 + (IF slides[i].notes THEN 1 ELSE 0) + j)
ChartRid(i, j) == "rId" \o ToString(1 + (IF slides[i].notes THEN 1 ELSE 0) + Len(slides[i].pics) + j)
InkRid(i) == "rId" \o ToString(2 + (IF slides[i].notes THEN 1 ELSE 0) + Len(slides[i].pics) + slides[i].charts)
LinkRid(i) == "rId" \o ToString(2 + (IF slides[i].notes THEN 1 ELSE 0) + Len(slides[i].pics) + slides[i].charts + (IF slides[i].ink THEN 1 ELSE 0))
Refs(i) ==
  LET s == slides[i] IN
  [j \in DOMAIN s.pics |-> [src |-> SlideP(i), id |-> PicRid(i, j), el |-> "blip"]]
  \o [j \in 1..s.charts |-> [src |-> SlideP(i), id |-> ChartRid(i, j), el |-> "chart"]]
  \o (IF s.ink THEN << [src |-> SlideP(i), id |-> InkRid(i), el |-> "contentPart"] >> ELSE <<>>)
  \o (IF s.link # "none" THEN << [src |-> SlideP(i), id |-> LinkRid(i), el |-> "hlinkClick"] >> ELSE <<>>)

One(b) == IF b THEN 1 ELSE 0
Rel(src, id, ty, tg) == [src |-> src, id |-> id, ty |-> ty, tg |-> tg, ext |-> FALSE]
Part(n, ct) == [n |-> n, ct |-> ct]
PresRels ==
  << Rel(PRES, "rId1", "slideMaster", "ppt/slideMasters/slideMaster1.xml") >>
  \o [i \in 1..N |-> Rel(PRES, "rId" \o ToString(i + 1), "slide", SlideP(i))]
  \o (IF AnyNotes THEN << Rel(PRES, "rId" \o ToString(N + 2), "notesMaster", "ppt/notesMasters/notesMaster1.xml") >> ELSE <<>>)
  \o (IF "handout" \in opts THEN << Rel(PRES, "rId" \o ToString(N + 2 + One(AnyNotes)), "handoutMaster", "ppt/handoutMasters/handoutMaster1.xml") >> ELSE <<>>)
  \o (IF "fonts" \in opts THEN << Rel(PRES, "rId" \o ToString(N + 2 + One(AnyNotes) + One("handout" \in opts)), "font", "ppt/fonts/font1.fntdata") >> ELSE <<>>)
Parts ==
  << Part(PRES, CTP \o "presentation.main+xml"), Part("ppt/slideMasters/slideMaster1.xml", CTP \o "slideMaster+xml"),
     Part("ppt/slideLayouts/slideLayout2.xml", CTP \o "slideLayout+xml"), Part("ppt/theme/theme1.xml", CTO \o "theme+xml") >>
  \o (IF AnyNotes THEN << Part("ppt/notesMasters/notesMaster1.xml", CTP \o "notesMaster+xml"), Part("ppt/theme/theme2.xml", CTO \o "theme+xml") >> ELSE <<>>)
  \o (IF "handout" \in opts THEN << Part("ppt/handoutMasters/handoutMaster1.xml", CTP \o "handoutMaster+xml"), Part("ppt/theme/theme3.xml", CTO \o "theme+xml") >> ELSE <<>>)
  \o (IF "fonts" \in opts THEN << Part("ppt/fonts/font1.fntdata", "application/x-fontdata") >> ELSE <<>>)
  \o (IF "sig" \in opts THEN << Part("_xmlsignatures/origin.sigs", "application/vnd.openxmlformats-package.digital-signature-origin") >> ELSE <<>>)
  \o Flat([i \in 1..N |-> << Part(SlideP(i), CTP \o "slide+xml") >>
        \o (IF slides[i].notes THEN << Part(NotesP(i), CTP \o "notesSlide+xml") >> ELSE <<>>)
        \o (IF slides[i].ink THEN << Part(InkP(i), "application/inkml+xml") >> ELSE <<>>)
        \o Flat([j \in 1..slides[i].charts |-> << Part(ChartP(i, j), CTO \o "drawingml.chart+xml"), Part(BookP(i, j), CTO \o "spreadsheetml.sheet") >>])])
  \o [k \in DOMAIN Med |-> Part(MediaName(Med[k], k), "image/" \o Med[k].ext)]
AllRels ==
  << Rel("", "rId1", "officeDocument", PRES), Rel("ppt/slideMasters/slideMaster1.xml", "rId1", "slideLayout", "ppt/slideLayouts/slideLayout2.xml"),
     Rel("ppt/slideMasters/slideMaster1.xml", "rId2", "theme", "ppt/theme/theme1.xml"), Rel("ppt/slideLayouts/slideLayout2.xml", "rId1", "slideMaster", "ppt/slideMasters/slideMaster1.xml") >>
  \o PresRels \o Flat([i \in 1..N |-> SlideRels(i)])
  \o (IF AnyNotes THEN << Rel("ppt/notesMasters/notesMaster1.xml", "rId1", "theme", "ppt/theme/theme2.xml") >> ELSE <<>>)
  \o (IF "handout" \in opts THEN << Rel("ppt/handoutMasters/handoutMaster1.xml", "rId1", "theme", "ppt/theme/theme3.xml") >> ELSE <<>>)
  \o (IF "sig" \in opts THEN << Rel("", "rId4", "origin", "_xmlsignatures/origin.sigs") >> ELSE <<>>)
  \o Flat([i \in 1..N |-> (IF slides[i].notes THEN << Rel(NotesP(i), "rId1", "notesMaster", "ppt/notesMasters/notesMaster1.xml"), Rel(NotesP(i), "rId2", "slide", SlideP(i)) >> ELSE <<>>)
        \o [j \in 1..slides[i].charts |-> Rel(ChartP(i, j), "rId1", "package", BookP(i, j))]])
Overrides == LET o == SelectSeq(Parts, LAMBDA x : ~\E k \in DOMAIN Med : x.n = MediaName(Med[k], k)) IN [k \in DOMAIN o |-> << o[k].n, o[k].ct >>]
Pkg == [zip |-> TRUE, dups |-> <<>>, bad |-> <<>>, parts |-> Parts, rels |-> AllRels,
        refs |-> [i \in 1..N |-> [src |-> PRES, id |-> "rId" \o ToString(i + 1), el |-> "sldId"]] \o Flat([i \in 1..N |-> Refs(i)])
                 \o Flat([i \in 1..N |-> [j \in 1..slides[i].charts |-> [src |-> ChartP(i, j), id |-> "rId1", el |-> "externalData"]]]),
        overrides |-> Overrides, slash |-> <<>>, defaults |-> << <<"png", "image/png">>, <<"jpg", "image/jpeg">> >>,
        sldIds |-> [i \in 1..N |-> [id |-> 255 + i, rid |-> "rId" \o ToString(i + 1), tg |-> SlideP(i)]],
        shapeIds |-> <<>>, layoutIds |-> << "2147483648", "2147483649" >>]

(* ------------------------------------------------------------------ properties *)
Closedness == done => Closed(Pkg) = {}
NoPartTwice == done => Distinct([k \in DOMAIN Parts |-> Parts[k].n])
(* following the relationship ids used on a slide reaches the payload of that object *)
Reach(i, id) == CHOOSE t \in {r.tg : r \in {q \in Rng(SlideRels(i)) : q.id = id}} : TRUE
Content(p) == (* payload behind a media part *) LET k == CHOOSE k \in DOMAIN Med : MediaName(Med[k], k) = p IN Med[k]
Bound == done => \A i \in 1..N :
  /\ \A j \in DOMAIN slides[i].pics : LET c == Content(Reach(i, PicRid(i, j))) IN c = Img(slides[i].pics[j])
  /\ \A j \in 1..slides[i].charts : Reach(i, ChartRid(i, j)) = ChartP(i, j)
  /\ slides[i].ink => Reach(i, InkRid(i)) = InkP(i)
  /\ slides[i].link = "slide" => Reach(i, LinkRid(i)) = SlideP(1)
OwnParts == done => \A i, k \in 1..N :
  /\ \A j \in 1..slides[i].charts, m \in 1..slides[k].charts : ChartP(i, j) = ChartP(k, m) => i = k /\ j = m
  /\ (slides[i].notes /\ slides[k].notes /\ NotesP(i) = NotesP(k)) => i = k
Emitted == (done /\ Emit) => PrintT("@@" \o ToJson([slides |-> slides, opts |-> opts]))
=============================================================================
