------------------------------ MODULE Comments ------------------------------
(* N01: comment authors and the comment lists of slides.  Identifiers and        *)
(* automatic indices are not prescribed, only constrained: they are fresh.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
Author(i, n, t) == [id |-> i, name |-> n, ini |-> t]
KnownAuthor(s, n) == {i \in 1..Len(s.authors) : s.authors[i].name = n}
UsedIds(s) == {s.authors[i].id : i \in 1..Len(s.authors)}
UsedIdx(s, k) == {s.slides[k][i].idx : i \in 1..Len(s.slides[k])}
\* is the answer an acceptable answer, and what follows from it
AuthorOk(s, n, id) == IF KnownAuthor(s, n) # {}
                      THEN \A i \in KnownAuthor(s, n) : s.authors[i].id = id
                      ELSE id \notin UsedIds(s)
AuthorStep(s, n, t, id) == IF KnownAuthor(s, n) # {} THEN s ELSE [s EXCEPT !.authors = Append(@, Author(id, n, t))]
CommentStep(s, k, c) == [s EXCEPT !.slides[k] = Append(@, c)]

\* design properties
DistinctAuthors(s) == \A i, j \in 1..Len(s.authors) : i # j => s.authors[i].id # s.authors[j].id /\ s.authors[i].name # s.authors[j].name
=============================================================================
