----------------------------- MODULE CommentsMC -----------------------------
EXTENDS Comments, TLC, Json
CONSTANTS People, Slides, MaxComments
VARIABLES s, hist
Cm(a, i) == [author |-> a, idx |-> i]
Init == s = [authors |-> <<>>, slides |-> [k \in 1..Slides |-> <<>>]] /\ hist = <<>>
Op(n, w, k, a, i) == [name |-> n, who |-> w, slide |-> k, author |-> a, idx |-> i]
Emit(op) == hist' = Append(hist, op) /\ PrintT("@@" \o ToJson([pre |-> hist, try |-> op]))
Total == Len(s.slides[1]) + (IF Slides > 1 THEN Len(s.slides[2]) ELSE 0)
Next ==
  \/ \E w \in People :
       LET id == Cardinality(UsedIds(s)) IN
       s' = AuthorStep(s, w, w, id) /\ Emit(Op("author", w, 0, 0, 0))
  \/ /\ Total < MaxComments
     /\ \E k \in 1..Slides, a \in UsedIds(s) :
          \/ LET i == CHOOSE x \in 1..20 : x \notin UsedIdx(s, k) /\ \A y \in UsedIdx(s, k) : y < x IN
             s' = CommentStep(s, k, Cm(a, i)) /\ Emit(Op("auto", "", k - 1, a, 0))
          \/ \E i \in {1, 2, 3} \ UsedIdx(s, k) :
             s' = CommentStep(s, k, Cm(a, i)) /\ Emit(Op("explicit", "", k - 1, a, i))
Spec == Init /\ [][Next]_<<s, hist>>
View == s
Inv == /\ DistinctAuthors(s)
       /\ \A k \in 1..Slides : Cardinality(UsedIdx(s, k)) = Len(s.slides[k])
\* an author keeps the identifier for ever; comments are only ever appended
Stable == [][ /\ \A i \in 1..Len(s.authors) : s'.authors[i] = s.authors[i]
              /\ \A k \in 1..Slides : IsPrefix(s.slides[k], s'.slides[k]) ]_s
=============================================================================
