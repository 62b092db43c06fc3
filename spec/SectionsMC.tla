----------------------------- MODULE SectionsMC -----------------------------
EXTENDS Sections, TLC, Json
CONSTANTS Names, MaxFirst, MaxCount, MaxLen
VARIABLES ss, hist
Ops == [name : {"add"}, sec : Names, first : 0..MaxFirst, count : 0..MaxCount, to : {""}]
       \cup [name : {"remove"}, sec : Names, first : {0}, count : {0}, to : {""}]
       \cup [name : {"rename"}, sec : Names, first : {0}, count : {0}, to : Names]
       \cup [name : {"clear"}, sec : {""}, first : {0}, count : {0}, to : {""}]
Init == ss = <<>> /\ hist = <<>>
Next == \E op \in Ops :
          /\ Len(ss) <= MaxLen
          /\ ss' = Apply(ss, op).st
          /\ hist' = Append(hist, op)
          /\ PrintT("@@" \o ToJson([pre |-> hist, try |-> op]))
Spec == Init /\ [][Next]_<<ss, hist>>
View == ss
Bound == Len(ss) <= MaxLen
Inv == Sorted(ss) /\ AtMostOne(ss, MaxFirst + MaxCount)
\* removing never invents, renaming never changes slides, a refused add changes nothing
Steps == [][ /\ Len(ss') <= Len(ss) + 1
             /\ \A i \in 1..Len(ss') : \/ \E j \in 1..Len(ss) : ss[j].first = ss'[i].first /\ ss[j].count = ss'[i].count
                                       \/ Len(ss') = Len(ss) + 1 ]_ss
=============================================================================
