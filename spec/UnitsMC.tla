------------------------------- MODULE UnitsMC -------------------------------
EXTENDS Units, TLC, Json
CONSTANTS Nums, Dens, Refs
VARIABLES q
UnitSet == {"emu", "in", "cm", "pt", "ratio", "percent"}
Init == q = [unit |-> "emu", n |-> 0, d |-> 1, ref |-> 0]
Next == \E u \in UnitSet, n \in Nums \cup {-7, -1}, d \in Dens, r \in Refs :
          /\ q.n = 0 /\ q.unit = "emu" /\ q.ref = 0
          /\ (u = "emu" => d = 1)
          /\ q' = [unit |-> u, n |-> n, d |-> d, ref |-> r]
          /\ PrintT("@@" \o ToJson(q'))
Spec == Init /\ [][Next]_q
Inv == /\ \A k \in {"x", "y", "ref", "abs", "signed"} : Monotone(q.unit, q.n, q.d, k, q.ref)
       /\ q.n = 0 => SameLength
       /\ q.unit \in {"ratio", "percent"} => Emu(q.unit, q.n, q.d, "ref", q.ref) \in 0..q.ref
=============================================================================
