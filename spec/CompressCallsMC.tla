--------------------------- MODULE CompressCallsMC ---------------------------
(* Calls of the in-memory compression that overlap in time.  Each has a workspace of its own *)
(* (Shared = FALSE); with one workspace for all (a file of a fixed name) a call can read     *)
(* another's input or output.                                                                 *)
EXTENDS Naturals, FiniteSets
CONSTANTS Calls, Shared
VARIABLES pc, ws, out
vars == <<pc, ws, out>>
W(c) == IF Shared THEN 0 ELSE c
Init == pc = [c \in Calls |-> "in"] /\ ws = [w \in 0..Cardinality(Calls) |-> <<"none", 0>>] /\ out = [c \in Calls |-> <<"none", 0>>]
Put(c) == pc[c] = "in" /\ ws' = [ws EXCEPT ![W(c)] = <<"raw", c>>] /\ pc' = [pc EXCEPT ![c] = "work"] /\ UNCHANGED out
Work(c) == pc[c] = "work" /\ ws' = [ws EXCEPT ![W(c)] = <<"small", @[2]>>] /\ pc' = [pc EXCEPT ![c] = "get"] /\ UNCHANGED out
Get(c) == pc[c] = "get" /\ out' = [out EXCEPT ![c] = ws[W(c)]] /\ pc' = [pc EXCEPT ![c] = "done"] /\ UNCHANGED ws
Next == \E c \in Calls : Put(c) \/ Work(c) \/ Get(c)
Spec == Init /\ [][Next]_vars
OwnResult == \A c \in Calls : pc[c] = "done" => out[c] = <<"small", c>>
=============================================================================
