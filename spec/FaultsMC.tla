------------------------------ MODULE FaultsMC ------------------------------
(* Files are damaged again and again and handed to every call; an editor then runs the plan. *)
EXTENDS Faults, TLC, Json
CONSTANTS MaxN, MaxFaults
VARIABLES f, faults, last, session, step
vars == <<f, faults, last, session, step>>
None == [what |-> "none", end |-> "none"]

Init == /\ \E n \in 1..MaxN : f = [box |-> "whole", n |-> n, st |-> [x \in Classes(n) |-> "good"]]
        /\ faults = 0 /\ last = None /\ session = 0 /\ step = 0
Hurt == /\ faults < MaxFaults /\ faults' = faults + 1
        /\ \E x \in Classes(f.n), s \in Statuses \ {"good"} : f.st[x] # "gone" /\ f' = [f EXCEPT !.st[x] = s]
        /\ last' = None /\ session' = 0 /\ step' = 0
Break == /\ faults < MaxFaults /\ faults' = faults + 1 /\ f.box = "whole"
         /\ \E b \in Boxes \ {"whole"} : f' = [f EXCEPT !.box = b]
         /\ last' = None /\ session' = 0 /\ step' = 0
Call == /\ last = None
        /\ \E w \in Calls : \E e \in Ends(f, w) :
             /\ last' = [what |-> w, end |-> e]
             /\ session' = IF w = "editor" /\ e = "ok" /\ Editable(f) THEN f.n ELSE 0
        /\ step' = 0 /\ UNCHANGED <<f, faults>>
Work == /\ session > 0 /\ step < Len(Plan) /\ step' = step + 1
        /\ session' = IF Fits(Plan[step'], session) THEN session + Grow(Plan[step']) - Shrink(Plan[step'], session) ELSE session
        /\ UNCHANGED <<f, faults, last>>
Next == Hurt \/ Break \/ Call \/ Work
Spec == Init /\ [][Next]_vars

Answers == \A w \in Calls : Ends(f, w) # {} /\ Ends(f, w) \subseteq {"ok", "err"}
CutIsRefused == f.box = "cut" => (last.what \notin {"none", "validate"} => last.end = "err")
IntactIsAccepted == Intact(f) => (\A w \in Calls : Ends(f, w) = {"ok"}) /\ Verdicts(f) = {TRUE} /\ \A i \in 1..f.n : Reading(f, i) = "as-before"
Accounted == session > 0 /\ step = Len(Plan) => session = Left(f.n) /\ session = f.n + 3
\* damage of one part is felt only where that part counts
Contained == [][\A i \in 1..f.n : Reading(f', i) # Reading(f, i) => f'.box # f.box \/ \E x \in {Digit(i), "pres", "prel"} : f'.st[x] # f.st[x]]_vars
Emitted == (last = None) => PrintT("@@" \o ToJson(f))
=============================================================================
