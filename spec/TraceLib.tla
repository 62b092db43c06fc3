------------------------------ MODULE TraceLib ------------------------------
(* Judges an ndjson trace recorded from the implementation, line by line.        *)
(* A line with op.name = "reset" starts a new case.  Every other line is an       *)
(* operation with the observation the implementation made; Judge(e, st) gives     *)
(* the specification's next state and the set of clauses that the observation     *)
(* breaks.  All clauses of a broken line are reported and the rest of that case   *)
(* is skipped (the states have diverged); judging resumes with the next case.     *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Judge(_, _), Start(_)
VARIABLES l, st, live

Trace == ndJsonDeserialize(IOEnv.VTRACE)
N == Len(Trace)

TraceInit == l = 1 /\ st = <<>> /\ live = FALSE

TraceNext ==
  /\ l <= N
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
       IF e.op.name = "reset"
       THEN st' = Start(e) /\ live' = TRUE
       ELSE IF ~live
       THEN UNCHANGED <<st, live>>
       ELSE LET r == Judge(e, st) IN
            /\ st' = r.st
            /\ live' = (r.bad = {})
            /\ \/ r.bad = {}
               \/ r.bad # {} /\ PrintT(<<"MISMATCH", e.case, e.i, r.bad, "@EXP@", r.exp>>)
  /\ (l = N => PrintT(<<"TRACE-DONE", N>>))

View == l

TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, live>>
=============================================================================
