------------------------------- MODULE RelsMC -------------------------------
EXTENDS Rels, Json
CONSTANTS Types, ExplicitNums, MaxLen
VARIABLES rs, hist
Name(k) == "rId" \o ToString(k)
Init == rs = <<>> /\ hist = <<>>
Emit(op) == hist' = Append(hist, op) /\ PrintT("@@" \o ToJson([pre |-> hist, try |-> op]))
Next ==
  /\ Len(rs) < MaxLen
  /\ \E t \in Types :
       \/ LET k == CHOOSE x \in 1..50 : Name(x) \notin Ids(rs) /\ \A y \in (x + 1)..50 : Name(y) \notin Ids(rs) IN
          /\ rs' = AddRel(rs, Rel(Name(k), t, "x", "Internal"))
          /\ Emit([name |-> "add", type |-> t, id |-> ""])
       \/ \E k \in ExplicitNums :
          /\ Name(k) \notin Ids(rs)
          /\ rs' = AddRel(rs, Rel(Name(k), t, "x", "Internal"))
          /\ Emit([name |-> "explicit", type |-> t, id |-> Name(k)])
       \/ /\ "custom" \notin Ids(rs)
          /\ rs' = AddRel(rs, Rel("custom", t, "x", "Internal"))
          /\ Emit([name |-> "explicit", type |-> t, id |-> "custom"])
Next2 == Next \/ (rs # <<>> /\ UNCHANGED rs /\ Emit([name |-> "reload", type |-> "Slide", id |-> ""]))
Spec == Init /\ [][Next2]_<<rs, hist>>
View == rs
Inv == UniqueIds(rs)
=============================================================================
