---------------------------- MODULE MermaidTrace ----------------------------
(* Judges the slide that the Markdown parser and the generator make of Mermaid diagrams.      *)
EXTENDS TraceLib, Mermaid

DStart(e) == LET w == Together(e.op.ds) IN
  w
Ok(cond, name) == IF cond THEN {} ELSE {name}
Abs(n) == IF n < 0 THEN -n ELSE n
Mid(g) == 2 * g.x + g.cx
SameText(w, g) == IF w.c = "slice" THEN g.share = w.t[1] /\ g.p >= 0 /\ Abs(g.p * w.y - 1000 * w.x) * 2 <= w.y + 2
                  ELSE g.t = w.t
(* messages without text have no text shape to compare, so every message of a case has a text *)
Compare(sl, s) ==
  LET sh == SelectSeq(sl.shapes, LAMBDA g : g.t # <<>> /\ g.t # <<"">>)
      ar == SelectSeq(sl.shapes, LAMBDA g : g.prst \in {"leftArrow", "rightArrow"})
      W == s.items
      msgs == SelectSeq([i \in DOMAIN W |-> <<i>>], LAMBDA z : W[z[1]].c = "message")
      cs == {i \in DOMAIN W : W[i].c = "commit"}
      bs == {i \in DOMAIN W : W[i].c = "branch"}
      Same(i, j) == s.of[i] = s.of[j]
  IN IF Len(sh) # Len(W) THEN {"shape-count"}
     ELSE IF \E i \in DOMAIN W : ~SameText(W[i], sh[i]) THEN {"text"}
     ELSE Ok(\A i \in DOMAIN W : W[i].prst # "" => sh[i].prst = W[i].prst, "node-shape")
     \cup Ok(\A i, j \in DOMAIN W : (i < j /\ Same(i, j) /\ W[i].c \in {"node", "commit"} /\ W[j].c \in {"node", "commit"})
               => <<sh[i].x, sh[i].y>> # <<sh[j].x, sh[j].y>>, "same-place")
     \cup Ok(Len(sl.cxns) = Len(s.links), "connector-count")
     \cup (IF Len(sl.cxns) # Len(s.links) THEN {} ELSE
             Ok(\A i \in DOMAIN s.links : /\ sl.cxns[i].st # <<>> /\ sl.cxns[i].en # <<>>
                                          /\ sl.cxns[i].st[1] = sh[s.links[i].a].id /\ sl.cxns[i].en[1] = sh[s.links[i].b].id, "connection")
        \cup Ok(\A i \in DOMAIN s.links : s.links[i].dashed # "any" => (sl.cxns[i].dash = s.links[i].dashed), "dash")
        \cup Ok(\A i \in DOMAIN s.links : /\ s.links[i].arrow # "any" => sl.cxns[i].arrow = s.links[i].arrow
                                          /\ s.links[i].arrow = "any" => sl.cxns[i].arrow = "yes", "arrow"))
     \cup Ok(\A i, j \in DOMAIN sl.ids : i # j => sl.ids[i] # sl.ids[j], "shape-id")
     \* a message spans the middles of its participants and points from one to the other
     \cup Ok(\A n \in DOMAIN msgs : LET i == msgs[n][1]  a == sh[W[i].a]  b == sh[W[i].b] IN
               /\ Abs(2 * sh[i].x - (IF Mid(a) < Mid(b) THEN Mid(a) ELSE Mid(b))) <= 2
               /\ Abs(2 * sh[i].cx - Abs(Mid(a) - Mid(b))) <= 4, "message-span")
     \cup (IF Len(ar) # Len(msgs) THEN {"message-arrows"} ELSE
             Ok(\A n \in DOMAIN msgs : LET i == msgs[n][1]  a == sh[W[i].a]  b == sh[W[i].b] IN
                  Mid(a) # Mid(b) => ar[n].prst = (IF Mid(a) < Mid(b) THEN "rightArrow" ELSE "leftArrow"), "message-direction"))
     \cup Ok(\A i, j \in DOMAIN W : (i < j /\ Same(i, j) /\ W[i].c = "message" /\ W[j].c = "message") => sh[i].y < sh[j].y, "message-order")
     \* commits follow each other along the rows of their branches
     \cup Ok(\A i, j \in DOMAIN W : (i < j /\ Same(i, j) /\ W[i].c = "commit" /\ W[j].c = "commit")
               => sh[i].x < sh[j].x /\ ((W[i].a = W[j].a) <=> (sh[i].y = sh[j].y)), "commit-row")
     \cup Ok(\A i \in cs : \A j \in bs : (Same(i, j) /\ W[j].a = W[i].a) =>
               /\ \A k \in bs : Same(i, k) => Abs(sh[i].y - sh[j].y) <= Abs(sh[i].y - sh[k].y)
               /\ \A k \in cs : Same(i, k) => \A n \in bs : (Same(k, n) /\ W[n].a = W[k].a) => sh[i].y - sh[j].y = sh[k].y - sh[n].y, "commit-branch")
     \* points lie as their coordinates say, to the right and upwards
     \cup Ok(\A i, j \in DOMAIN W : (Same(i, j) /\ W[i].c = "point" /\ W[j].c = "point") =>
               /\ W[i].x + 5 < W[j].x /\ W[j].x > 10 => sh[i].x < sh[j].x
               /\ W[i].y + 5 < W[j].y /\ W[i].y < 90 => sh[i].y > sh[j].y, "point-place")
DJudge(e, s) ==
  LET o == e.obs
      c == IF o.panic THEN {"panic"} ELSE IF o.err THEN {"error"}
           ELSE IF Len(o.slides) # 1 THEN {"slide-count"} ELSE Compare(o.slides[1], s)
  IN [st |-> s, bad |-> {"M02:" \o x : x \in c}, exp |-> [items |-> [i \in DOMAIN s.items |-> s.items[i].t], links |-> s.links]]
=============================================================================
