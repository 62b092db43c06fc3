---------------------------- MODULE PackageMapMC ----------------------------
EXTENDS PackageMap, Json
CONSTANTS Names, Datas, Depth
VARIABLES p, hist
Op(n, x, d) == [name |-> n, part |-> x, data |-> d]
Ops == {Op("add", x, d) : x \in Names, d \in Datas} \cup {Op(n, x, "") : n \in {"remove", "get", "string", "has"}, x \in Names}
       \cup {Op("append", x, "61") : x \in Names} \cup {Op("mem", "", ""), Op("file", "", "")}
Init == p = Empty /\ hist = <<>>
Next == \E op \in Ops :
          /\ p' = ApplyPk(p, op).st
          /\ hist' = Append(hist, op)
          /\ PrintT("@@" \o ToJson([pre |-> hist, try |-> op]))
Spec == Init /\ [][Next]_<<p, hist>>
View == p
Bound == \A n \in DOMAIN p : p[n] \in {"", "61", "6161", "ff00", "ff0061"}
\* saving and reading back is the identity on the map; only the named part is affected
Frame == [][ \A n \in DOMAIN p \cup DOMAIN p' : Get(p, n) # Get(p', n) => n = hist'[Len(hist')].part ]_<<p, hist>>
=============================================================================
