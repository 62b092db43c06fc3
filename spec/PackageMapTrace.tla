--------------------------- MODULE PackageMapTrace ---------------------------
EXTENDS PackageMap, TraceLib
Bad(cond, name) == IF cond THEN {} ELSE {name}
PkStart(e) == Empty
PkJudge(e, s) ==
  IF e.obs.panic THEN [st |-> s, bad |-> {"no-panic"}, exp |-> ""]
  ELSE
  LET o == e.obs
      r == ApplyPk(s, e.op)
      n == r.st
      listed == {o.view[i][1] : i \in 1..Len(o.view)}
      clause == CASE e.op.name = "mem" -> "memory-round-trip" [] e.op.name = "file" -> "file-round-trip" [] OTHER -> "bytes-last-given"
  IN [st |-> IF e.op.probe THEN s ELSE n, exp |-> <<r.ret, n>>,
      bad |-> Bad(o.ret = r.ret \/ (e.op.name = "string" /\ ~e.op.text), "answer-" \o e.op.name)
        \cup Bad(listed = DOMAIN n /\ Len(o.view) = Cardinality(DOMAIN n) /\ o.count = Cardinality(DOMAIN n), "parts-listed")
        \cup Bad(\A i \in 1..Len(o.view) : o.view[i][1] \in DOMAIN n => o.view[i][2] = n[o.view[i][1]], clause)]
=============================================================================
