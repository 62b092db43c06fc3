-------------------------------- MODULE Rels --------------------------------
(* P01: relationship containers and content-type tables.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
Rel(i, t, g, m) == [id |-> i, type |-> t, target |-> g, mode |-> m]
Ids(rs) == {rs[i].id : i \in 1..Len(rs)}
FirstWith(rs, id) == LET c == {i \in 1..Len(rs) : rs[i].id = id} IN
                     IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
OfType(rs, t) == SelectSeq(rs, LAMBDA r : r.type = t)
\* an automatic id is any id not in use
FreshId(rs, id) == id \notin Ids(rs) /\ id # ""
AddRel(rs, r) == Append(rs, r)
UniqueIds(rs) == \A i, j \in 1..Len(rs) : i # j => rs[i].id # rs[j].id

(* content types: defaults by extension and overrides by part name, last one wins *)
SetEntry(tab, k, ct) == SelectSeq(tab, LAMBDA x : x.k # k) \o <<[k |-> k, ct |-> ct]>>
OneEntryPerKey(tab) == \A i, j \in 1..Len(tab) : i # j => tab[i].k # tab[j].k
AsSet(tab) == {tab[i] : i \in 1..Len(tab)}
InitDefaults == <<
  [k |-> "rels", ct |-> "application/vnd.openxmlformats-package.relationships+xml"],
  [k |-> "xml", ct |-> "application/xml"], [k |-> "jpeg", ct |-> "image/jpeg"], [k |-> "jpg", ct |-> "image/jpeg"],
  [k |-> "png", ct |-> "image/png"], [k |-> "gif", ct |-> "image/gif"], [k |-> "bmp", ct |-> "image/bmp"],
  [k |-> "tiff", ct |-> "image/tiff"], [k |-> "svg", ct |-> "image/svg+xml"], [k |-> "mp4", ct |-> "video/mp4"],
  [k |-> "mp3", ct |-> "audio/mpeg"], [k |-> "wav", ct |-> "audio/wav"]>>
PML == "application/vnd.openxmlformats-officedocument.presentationml."
N2S(n) == ToString(n)
Std(kind, n) ==
  CASE kind = "presentation" -> [k |-> "/ppt/presentation.xml", ct |-> PML \o "presentation.main+xml"]
    [] kind = "slide" -> [k |-> "/ppt/slides/slide" \o n \o ".xml", ct |-> PML \o "slide+xml"]
    [] kind = "layout" -> [k |-> "/ppt/slideLayouts/slideLayout" \o n \o ".xml", ct |-> PML \o "slideLayout+xml"]
    [] kind = "master" -> [k |-> "/ppt/slideMasters/slideMaster" \o n \o ".xml", ct |-> PML \o "slideMaster+xml"]
    [] kind = "theme" -> [k |-> "/ppt/theme/theme" \o n \o ".xml", ct |-> "application/vnd.openxmlformats-officedocument.theme+xml"]
    [] kind = "notes" -> [k |-> "/ppt/notesSlides/notesSlide" \o n \o ".xml", ct |-> PML \o "notesSlide+xml"]
    [] kind = "chart" -> [k |-> "/ppt/charts/chart" \o n \o ".xml", ct |-> "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"]
    [] kind = "core" -> [k |-> "/docProps/core.xml", ct |-> "application/vnd.openxmlformats-package.core-properties+xml"]
    [] OTHER -> [k |-> "/docProps/app.xml", ct |-> "application/vnd.openxmlformats-officedocument.extended-properties+xml"]
ApplyCt(c, op) ==
  CASE op.name = "default" -> [c EXCEPT !.d = SetEntry(@, op.key, op.ct)]
    [] op.name = "override" -> [c EXCEPT !.o = SetEntry(@, op.key, op.ct)]
    [] op.name \in {"reload", "none"} -> c
    [] OTHER -> [c EXCEPT !.o = SetEntry(@, Std(op.name, op.n).k, Std(op.name, op.n).ct)]
=============================================================================
