------------------------------- MODULE ReadMC -------------------------------
(* Generate, read, import, generate again: one slide through the chain, text as     *)
(* XML character data, tables as cells with span and cover marks.                   *)
EXTENDS Deck, TableMerge, Json
CONSTANTS MaxLen, Toks, MaxHops, Emit
VARIABLES orig, cur, hop
vars == <<orig, cur, hop>>

Texts == UNION {[1..n -> Toks] : n \in 0..MaxLen}
U == <<"u">>
BulletLists == {<<>>} \cup {<<t>> : t \in Texts} \cup {<<t, U>> : t \in Texts} \cup {<<U, t, U>> : t \in Texts}
(* tables: a grid and its merged regions *)
Grids == {[rows |-> 2, cols |-> 3, regions |-> rs] : rs \in {<<>>} \cup {<<a>> : a \in {Region(0, 0, 1, 2), Region(0, 0, 2, 1), Region(0, 1, 2, 2), Region(1, 0, 1, 3), Region(0, 0, 2, 3)}}
                 \cup {<<Region(0, 0, 2, 1), Region(0, 1, 2, 2)>>, <<Region(0, 0, 1, 2), Region(1, 1, 1, 2)>>}}
Covers(g, r, c) == {i \in DOMAIN g.regions : LET q == g.regions[i] IN r >= q.row /\ r < q.row + q.rs /\ c >= q.col /\ c < q.col + q.cs}
Cell(g, r, c, t) ==
  IF Covers(g, r, c) = {} THEN [t |-> t, gs |-> 1, rs |-> 1, hm |-> FALSE, vm |-> FALSE] ELSE
  LET q == g.regions[CHOOSE i \in Covers(g, r, c) : TRUE] IN
  IF r = q.row /\ c = q.col THEN [t |-> t, gs |-> q.cs, rs |-> q.rs, hm |-> FALSE, vm |-> FALSE]
  ELSE [t |-> <<>>, gs |-> 1, rs |-> 1, hm |-> c > q.col, vm |-> r > q.row]
TableOf(g, t) == [r \in 1..g.rows |-> [c \in 1..g.cols |-> Cell(g, r - 1, c - 1, IF r = 1 /\ c = 1 THEN t ELSE U)]]

Layouts == DOMAIN LayoutNo
SlideSet == {[layout |-> l, title |-> t, bullets |-> b, table |-> <<>>] : l \in Layouts, t \in Texts, b \in {<<>>, <<U>>}}
       \cup {[layout |-> l, title |-> U, bullets |-> b, table |-> <<>>] : l \in Layouts, b \in BulletLists}
       \cup {[layout |-> l, title |-> U, bullets |-> <<>>, table |-> <<TableOf(g, t)>>] : l \in Layouts, g \in Grids, t \in {<<>>, U} \cup {<<x>> : x \in Toks}}

(* --------------------------------------------------------------- the file *)
Escape == [amp |-> "&amp;", lt |-> "&lt;", gt |-> "&gt;", quot |-> "&quot;"]
Enc(t) == [i \in DOMAIN t |-> IF t[i] \in DOMAIN Escape THEN [ent |-> TRUE, of |-> t[i]] ELSE [ent |-> FALSE, of |-> t[i]]]
(* a parser reports a run of literal blanks as white space, anything else as characters; a reader of leaves takes both *)
Event(x) == IF \A i \in DOMAIN x : x[i].of = "sp" /\ ~x[i].ent THEN [kind |-> "blank", x |-> x] ELSE [kind |-> "chars", x |-> x]
Dec(e) == [i \in DOMAIN e.x |-> e.x[i].of]

Gen(s) ==
  LET body == IF ~(s.layout \in {"TitleAndContent", "TitleAndBigContent", "TwoColumn"}) THEN <<>>
              ELSE IF s.layout = "TwoColumn"
              THEN LET h == (Len(s.bullets) + 1) \div 2 IN <<SubSeq(s.bullets, 1, h), SubSeq(s.bullets, h + 1, Len(s.bullets))>>
              ELSE <<s.bullets>>
  IN [title |-> IF s.layout = "Blank" THEN <<>> ELSE <<Event(Enc(s.title))>>,
      bodies |-> [i \in DOMAIN body |-> [j \in DOMAIN body[i] |-> Event(Enc(body[i][j]))]],
      tables |-> [k \in DOMAIN s.table |-> [r \in DOMAIN s.table[k] |-> [c \in DOMAIN s.table[k][r] |-> [s.table[k][r][c] EXCEPT !.t = Event(Enc(@))]]]]]
Read(f) ==
  [title |-> IF f.title = <<>> THEN <<>> ELSE Dec(f.title[1]),
   body |-> SelectSeq(Flat([i \in DOMAIN f.bodies |-> [j \in DOMAIN f.bodies[i] |-> Dec(f.bodies[i][j])]]), LAMBDA t : t # <<>>),
   tables |-> [k \in DOMAIN f.tables |-> [r \in DOMAIN f.tables[k] |-> [c \in DOMAIN f.tables[k][r] |->
                 [t |-> Dec(f.tables[k][r][c].t), rs |-> f.tables[k][r][c].rs, gs |-> f.tables[k][r][c].gs]]]]]
(* the importer recomputes the cover marks from the spans *)
CoverBy(v, r, c) == {<<a, b>> \in (DOMAIN v) \X (DOMAIN v[1]) : <<a, b>> # <<r, c>> /\ a <= r /\ r < a + v[a][b].rs /\ b <= c /\ c < b + v[a][b].gs}
Import(v) ==
  [layout |-> "TitleAndContent", title |-> v.title, bullets |-> v.body,
   table |-> IF v.tables = <<>> THEN <<>> ELSE << LET w == v.tables[1] IN [r \in DOMAIN w |-> [c \in DOMAIN w[r] |->
      [t |-> w[r][c].t, gs |-> w[r][c].gs, rs |-> w[r][c].rs, hm |-> \E p \in CoverBy(w, r, c) : p[2] < c, vm |-> \E p \in CoverBy(w, r, c) : p[1] < r]]] >>]

Init == orig \in SlideSet /\ cur = orig /\ hop = 0
Next == hop < MaxHops /\ cur' = Import(Read(Gen(cur))) /\ hop' = hop + 1 /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
Stable == Read(Gen(cur)) = Read(Gen(orig))
Faithful ==
  LET v == Read(Gen(cur)) IN
  /\ v.title = IF orig.layout = "Blank" THEN <<>> ELSE orig.title
  /\ v.body = IF orig.layout \in {"TitleAndContent", "TitleAndBigContent", "TwoColumn"} THEN SelectSeq(orig.bullets, LAMBDA t : t # <<>>) ELSE <<>>
  /\ Len(v.tables) = Len(orig.table)
MarksKept == \A k \in DOMAIN cur.table : \A r \in DOMAIN cur.table[k] : \A c \in DOMAIN cur.table[k][r] :
               cur.table[k][r][c].hm = orig.table[k][r][c].hm /\ cur.table[k][r][c].vm = orig.table[k][r][c].vm
Emitted == (Emit /\ hop = MaxHops) => PrintT("@@" \o ToJson(orig))
=============================================================================
