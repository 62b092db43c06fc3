----------------------------- MODULE TableMerge -----------------------------
(* T01: the merge map of a table.  State: the accepted regions, in order.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
Region(r, c, rs, cs) == [row |-> r, col |-> c, rs |-> rs, cs |-> cs]

Cells(g) == {<<r, c>> : r \in g.row..(g.row + g.rs - 1), c \in g.col..(g.col + g.cs - 1)}

Fits(g, rows, cols) == g.row + g.rs <= rows /\ g.col + g.cs <= cols
Disjoint(a, b) == Cells(a) \cap Cells(b) = {}

Acceptable(m, g) == /\ g.rs >= 1 /\ g.cs >= 1
                    /\ Fits(g, m.rows, m.cols)
                    /\ \A i \in 1..Len(m.regions) : Disjoint(m.regions[i], g)

Merge(m, g) == IF Acceptable(m, g) THEN [m EXCEPT !.regions = Append(@, g)] ELSE m

\* what a cell is reported as: "." plain, "A<rs>x<cs>" anchor, "H" or "V" merged away
Owner(m, r, c) == {i \in 1..Len(m.regions) : <<r, c>> \in Cells(m.regions[i])}
CellKind(m, r, c) ==
  LET o == Owner(m, r, c) IN
  IF o = {} THEN [k |-> "plain", rs |-> 0, cs |-> 0]
  ELSE LET g == m.regions[CHOOSE i \in o : TRUE] IN
       IF r = g.row /\ c = g.col THEN [k |-> "anchor", rs |-> g.rs, cs |-> g.cs]
       ELSE IF r = g.row THEN [k |-> "hmerge", rs |-> 0, cs |-> 0]
       ELSE [k |-> "vmerge", rs |-> 0, cs |-> 0]

Grid(m, pad) == [r \in 1..(m.rows + pad) |-> [c \in 1..(m.cols + pad) |-> CellKind(m, r - 1, c - 1)]]

\* ------------------------------------------------ properties of the design
NoOverlap(m) == \A i, j \in 1..Len(m.regions) : i # j => Disjoint(m.regions[i], m.regions[j])
InGrid(m) == \A i \in 1..Len(m.regions) : Fits(m.regions[i], m.rows, m.cols)
\* every cell is covered at most once, and every anchor's area is exactly marked
AnchorsCover(m) ==
  \A r \in 0..(m.rows - 1), c \in 0..(m.cols - 1) :
     LET k == CellKind(m, r, c) IN
     /\ Cardinality(Owner(m, r, c)) <= 1
     /\ k.k = "anchor" => \A x \in r..(r + k.rs - 1), y \in c..(c + k.cs - 1) :
                              (x # r \/ y # c) => CellKind(m, x, y).k \in {"hmerge", "vmerge"}
     /\ k.k = "plain" <=> Owner(m, r, c) = {}
=============================================================================
