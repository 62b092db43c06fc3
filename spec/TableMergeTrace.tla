--------------------------- MODULE TableMergeTrace ---------------------------
EXTENDS TableMerge, TraceLib
TMStart(e) == [rows |-> e.op.rows, cols |-> e.op.cols, regions |-> <<>>]
Bad(cond, name) == IF cond THEN {} ELSE {name}
Attr(k) == CASE k.k = "plain" -> ""
             [] k.k = "hmerge" -> " hMerge=~22;1~22;"
             [] k.k = "vmerge" -> " vMerge=~22;1~22;"
             [] OTHER -> (IF k.cs > 1 THEN " gridSpan=~22;" \o ToString(k.cs) \o "~22;" ELSE "")
                         \o (IF k.rs > 1 THEN " rowSpan=~22;" \o ToString(k.rs) \o "~22;" ELSE "")
TMJudge(e, s) ==
  LET g == IF e.op.huge THEN Region(s.rows + 1, s.cols + 1, 1, 1)
           ELSE Region(e.op.r, e.op.c, e.op.rs, e.op.cs)
      ok == Acceptable(s, g)
      n == Merge(s, g)
      exp == Grid(n, 1)
      o == e.obs
  IN IF o.panic THEN [st |-> IF e.op.probe THEN s ELSE n, bad |-> {"no-panic"}, exp |-> ""]
     ELSE [st |-> IF e.op.probe THEN s ELSE n, exp |-> <<ok>>,
           bad |-> Bad(o.ok = ok, "accepted-iff-free-and-inside")
             \cup Bad(o.len = Len(n.regions) /\ o.empty = (Len(n.regions) = 0), "region-count")
             \cup Bad(o.dims = <<s.rows, s.cols>>, "dimensions")
             \cup Bad(Len(o.regions) = Len(n.regions) /\ \A i \in 1..Len(n.regions) : i \in DOMAIN o.regions /\ o.regions[i] = <<n.regions[i].row, n.regions[i].col, n.regions[i].rs, n.regions[i].cs>>, "accepted-regions")
             \cup Bad(\A r \in 1..(s.rows + 1), c \in 1..(s.cols + 1) : o.grid[r][c].k = exp[r][c].k, "cell-marking")
             \cup Bad(\A r \in 1..(s.rows + 1), c \in 1..(s.cols + 1) : o.grid[r][c].rs = exp[r][c].rs /\ o.grid[r][c].cs = exp[r][c].cs, "anchor-spans")
             \cup Bad(\A r \in 1..(s.rows + 1), c \in 1..(s.cols + 1) : o.grid[r][c].x = Attr(exp[r][c]), "cell-xml-attributes")
             \cup Bad(\A r \in 1..(s.rows + 1), c \in 1..(s.cols + 1) : o.grid[r][c].away = (exp[r][c].k \in {"hmerge", "vmerge"}), "merged-away-flag")]
=============================================================================
