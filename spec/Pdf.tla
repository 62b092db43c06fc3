-------------------------------- MODULE Pdf --------------------------------
(* What the drawn PDF of a deck shows: one page per slide, on it the title, the bullets with   *)
(* their markers, the lines of the code blocks and the page number, top to bottom, as far as   *)
(* the page reaches.                                                                           *)
EXTENDS Deck

Letters == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Capitals == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Values == <<50, 40, 10, 9, 5, 4, 1>>
RomanUp == <<"L", "XL", "X", "IX", "V", "IV", "I">>
RomanLow == <<"l", "xl", "x", "ix", "v", "iv", "i">>
RECURSIVE Roman(_, _, _)
Roman(n, k, sy) == IF n = 0 THEN "" ELSE IF n >= Values[k] THEN sy[k] \o Roman(n - Values[k], k, sy) ELSE Roman(n, k + 1, sy)
(* the marker of the n-th item of a list *)
Counted == {"Number", "LetterLower", "LetterUpper", "RomanLower", "RomanUpper"}
Twice(ls, n) == ls[((n - 1) % 26) + 1] \o ls[((n - 1) % 26) + 1] \o "."       \* aa, bb: past z, as ECMA-376 counts
Marker(st, n) ==
  CASE st.k \in {"LetterLower", "LetterUpper"} /\ n > 26 -> Twice(IF st.k = "LetterLower" THEN Letters ELSE Capitals, n)
    [] st.k = "Number" -> ToString(n) \o "."
    [] st.k = "LetterLower" -> Letters[((n - 1) % 26) + 1] \o "."
    [] st.k = "LetterUpper" -> Capitals[((n - 1) % 26) + 1] \o "."
    [] st.k = "RomanLower" -> Roman(n, 1, RomanLow)
    [] st.k = "RomanUpper" -> Roman(n, 1, RomanUp)
    [] st.k = "Bullet" -> "~2022;"
    [] st.k = "Custom" -> st.c
    [] OTHER -> ""

Centred(s) == s.layout \in {"CenteredTitle", "SectionHeader"}
Plain(bs, i) == \A j \in 1..i : bs[j].st.k = bs[i].st.k /\ bs[j].lvl = 0
(* numbers of an interrupted or nested list: how they go on is not laid down here *)
Numbers(bs, i) == IF Plain(bs, i) THEN {i} ELSE 1..i
Face(b, i) == IF b /\ i THEN "Helvetica-BoldOblique" ELSE IF b THEN "Helvetica-Bold" ELSE IF i THEN "Helvetica-Oblique" ELSE "Helvetica"
Points(o, dflt) == IF o = <<>> THEN {75 * dflt} ELSE IF o[1] = -1 THEN {} ELSE {75 * o[1]}     \* hundredths of a point; {} any
(* a run the page should show: the texts it may read, its face, sizes, colours ({} any), its line and indent *)
Run(k, ts, face, sz, col, line, lvl) == [k |-> k, ts |-> ts, face |-> face, sz |-> sz, col |-> col, line |-> line, lvl |-> lvl]
TitleRuns(s) == <<Run("title", {s.title}, Face(Get(s.tb, TRUE), Get(s.ti, FALSE)), Points(s.tsz, 44), {x : x \in {s.trgb[i] : i \in DOMAIN s.trgb}}, 0, 0)>>
BulletRuns(s) ==
  LET bs == BulletList(s)
      plain == Bullets(s.b, Simple("Bullet"), <<>>).out = <<>>
      F(i) == LET f == Get(bs[i].f, NoFmt)
                  face == Face(f.b \/ Get(s.cb, FALSE), f.i \/ Get(s.ci, FALSE))
                  sz == IF f.sz # <<>> THEN {75 * f.sz[1]} ELSE Points(s.csz, 28)
                  col == IF f.color # <<>> THEN {f.color[1]} ELSE {s.crgb[j] : j \in DOMAIN s.crgb}
                  lvl == Min2(bs[i].lvl, 8)
              IN (IF plain \/ bs[i].st.k = "None" THEN <<>> ELSE <<Run("mark", {Marker(bs[i].st, n) : n \in Numbers(bs, i)}, face, sz, col, i, lvl)>>)
                 \o <<Run(IF plain \/ bs[i].st.k = "None" THEN "bare" ELSE "text", {bs[i].t}, face, sz, col, i, lvl)>>
  IN Flat([i \in DOMAIN bs |-> F(i)])
CodeRuns(s, n) ==
  LET before(i) == n + Sum([j \in 1..(i - 1) |-> Len(s.codes[j])])
      F(i) == [j \in DOMAIN s.codes[i] |-> Run("code", {s.codes[i][j]}, "Courier", {}, {}, before(i) + j, 0)]
  IN Flat([i \in DOMAIN s.codes |-> F(i)])
Wanted(s) == LET bs == BulletRuns(s) IN SelectSeq(TitleRuns(s) \o bs \o CodeRuns(s, Len(BulletList(s))), LAMBDA r : r.ts # {""})
Footer(i, n) == ToString(i) \o " / " \o ToString(n)
=============================================================================
