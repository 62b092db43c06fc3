---------------------------- MODULE TableMergeMC ----------------------------
EXTENDS TableMerge, TLC, Json
CONSTANTS Rows, Cols, MaxSpan, Depth
VARIABLES m, hist
Init == m = [rows |-> Rows, cols |-> Cols, regions |-> <<>>] /\ hist = <<>>
Next == \E r \in 0..Rows, c \in 0..Cols, rs \in 0..MaxSpan, cs \in 0..MaxSpan :
          LET g == Region(r, c, rs, cs) IN
          /\ Len(m.regions) < Depth
          /\ m' = Merge(m, g)
          /\ hist' = IF m' = m THEN hist ELSE Append(hist, <<r, c, rs, cs>>)
          /\ PrintT("@@" \o ToJson([rows |-> Rows, cols |-> Cols, pre |-> hist, try |-> <<r, c, rs, cs>>]))
Spec == Init /\ [][Next]_<<m, hist>>
View == m
Inv == NoOverlap(m) /\ InGrid(m) /\ AnchorsCover(m)
=============================================================================
