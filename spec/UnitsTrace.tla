----------------------------- MODULE UnitsTrace -----------------------------
EXTENDS Units, TraceLib
Bad(cond, name) == IF cond THEN {} ELSE {name}
UStart(e) == 0
One(e, v) ==
  LET op == e.op IN
  CASE v.k = "same" -> v.v = 1
    [] v.k = "hundred" -> v.v = op.n * 100
    [] op.class = "huge" -> IF op.unit \in {"ratio", "percent"}
                            THEN Agrees(v.v, "ratio", 1, 1, v.k, op.ref) /\ ~v.sat
                            ELSE v.sat \/ v.k = "signed"
    [] op.class = "nan" -> TRUE
    [] OTHER -> ~v.sat /\ Agrees(v.v, op.unit, op.n, op.d, v.k, op.ref)
UJudge(e, s) ==
  IF e.obs.panic THEN [st |-> s, bad |-> {"no-panic-" \o e.op.via}, exp |-> ""]
  ELSE [st |-> s, exp |-> <<e.op, {Emu(e.op.unit, e.op.n, e.op.d, k, e.op.ref) : k \in {"x", "y", "ref", "abs"}}>>,
        bad |-> Bad(\A i \in 1..Len(e.obs.vals) : One(e, e.obs.vals[i]), "length-" \o e.op.unit \o "-" \o e.op.via)
          \cup Bad(Len(e.obs.vals) > 0, "answers")]
=============================================================================
