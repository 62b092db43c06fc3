------------------------------ MODULE RelsTrace ------------------------------
EXTENDS Rels, TraceLib
Bad(cond, name) == IF cond THEN {} ELSE {name}
RStart(e) == IF e.op.kind = "rels" THEN [kind |-> "rels", rs |-> <<>>, ids |-> e.op.ids, types |-> e.op.types]
             ELSE [kind |-> "ct", d |-> InitDefaults, o |-> <<>>]
NoMode(rs) == [i \in 1..Len(rs) |-> [id |-> rs[i].id, type |-> rs[i].type, target |-> rs[i].target]]
JRels(e, s) ==
  LET o == e.obs
      op == e.op
      n == CASE op.name = "add" -> AddRel(s.rs, Rel(o.ret, op.type, op.target, "Internal"))
             [] op.name = "explicit" -> AddRel(s.rs, Rel(op.id, op.type, op.target, "Internal"))
             [] op.name = "parse" -> op.list
             [] OTHER -> s.rs
      get(id) == LET i == FirstWith(n, id) IN IF i = 0 THEN [id |-> "-", type |-> "-", target |-> "-"] ELSE NoMode(n)[i]
      by(t) == LET q == OfType(n, t) IN [i \in 1..Len(q) |-> q[i].id]
  IN [st |-> IF e.op.probe THEN s ELSE [s EXCEPT !.rs = n], exp |-> <<n>>,
      bad |-> Bad(op.name = "add" => FreshId(s.rs, o.ret), "automatic-id-unused")
        \cup Bad(op.name \in {"reload", "parse"} => o.ret = "", "parses-back")
        \cup Bad(o.all = NoMode(n), "relationships-listed")
        \cup Bad(\A i \in 1..Len(s.ids) : o.get[i] = get(s.ids[i]), "lookup-by-id")
        \cup Bad(\A i \in 1..Len(s.types) : o.by[i] = by(s.types[i]), "lookup-by-type")
        \cup Bad(o.len = Len(n) /\ o.empty = (n = <<>>), "relationship-count")
        \cup Bad(o.wf, "xml-well-formed")
        \cup Bad(NoMode(o.xml) = NoMode(n), "xml-content")
        \cup Bad([i \in 1..Len(o.xml) |-> o.xml[i].mode] = [i \in 1..Len(n) |-> n[i].mode], "target-mode-kept")
        \cup Bad(o.backok /\ o.back = NoMode(n), "write-parse-round-trip")]
JCt(e, s) ==
  LET o == e.obs
      n == ApplyCt(s, e.op)
  IN [st |-> IF e.op.probe THEN s ELSE n, exp |-> <<n>>,
      bad |-> Bad(o.ret = "", "content-types-parse-back")
        \cup Bad(o.wf, "content-types-well-formed")
        \cup Bad(OneEntryPerKey(o.d) /\ OneEntryPerKey(o.o), "one-content-type-entry-per-key")
        \cup Bad(AsSet(o.d) = AsSet(n.d), "content-type-defaults")
        \cup Bad(AsSet(o.o) = AsSet(n.o), "content-type-overrides")]
RJudge(e, s) == IF e.obs.panic THEN [st |-> s, bad |-> {"no-panic"}, exp |-> ""]
                ELSE IF s.kind = "rels" THEN JRels(e, s) ELSE JCt(e, s)
=============================================================================
