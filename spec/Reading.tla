------------------------------ MODULE Reading ------------------------------
(* What reading a generated presentation back returns for a slide of a deck.        *)
EXTENDS Deck

NonEmpty(ts) == SelectSeq(ts, LAMBDA t : t # "")
RTitle(s) == IF ExpTitle(s) = <<>> THEN "" ELSE ExpTitle(s)[1].t
RBody(s) == NonEmpty(Flat([i \in DOMAIN ExpBodies(s) |-> [j \in DOMAIN ExpBodies(s)[i] |-> ExpBodies(s)[i][j].t]]))
RCell(c) == LET x == ExpCell(c) IN [t |-> x.t, rs |-> x.rs, gs |-> x.gs]
RTables(s) == [i \in DOMAIN s.table |-> [r \in DOMAIN s.table[i].rows |-> [c \in DOMAIN s.table[i].rows[r].cells |-> RCell(s.table[i].rows[r].cells[c])]]]
=============================================================================
