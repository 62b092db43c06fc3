---------------------------- MODULE SectionsTrace ----------------------------
EXTENDS Sections, TraceLib
SStart(e) == [ss |-> <<>>, n |-> e.op.slides, names |-> e.op.names]
Bad(cond, name) == IF cond THEN {} ELSE {name}
None == [name |-> "-", first |-> -1, count |-> -1, last |-> -1]
V(x) == [name |-> x.name, first |-> x.first, count |-> x.count, last |-> LastSlide(x)]
SJudge(e, s) ==
  LET r == Apply(s.ss, e.op)
      n == r.st
      o == e.obs
      at(i) == LET c == {k \in 1..Len(n) : Covers(n[k], i)} IN IF c = {} THEN None ELSE V(n[FirstOf(c)])
      get(nm) == IF Named(n, nm) = {} THEN None ELSE V(n[FirstOf(Named(n, nm))])
      st2 == IF e.op.probe THEN s ELSE [s EXCEPT !.ss = n]
  IN IF o.panic THEN [st |-> st2, bad |-> {"no-panic"}, exp |-> ""]
     ELSE [st |-> st2, exp |-> <<r.ok, n>>,
       bad |-> Bad(o.ok = r.ok, "result-of-operation")
         \cup Bad(o.secs = [i \in 1..Len(n) |-> V(n[i])], "sections-listed")
         \cup Bad(\A i \in 0..s.n : o.at[i + 1] = at(i), "section-for-slide")
         \cup Bad(\A i \in 1..Len(s.names) : o.get[i] = get(s.names[i]), "section-by-name")
         \cup Bad(o.len = Len(n) /\ o.empty = (n = <<>>), "section-count")
         \cup Bad(o.wf, "section-list-well-formed")
         \cup Bad([i \in 1..Len(o.xml) |-> [name |-> o.xml[i].name, ids |-> o.xml[i].ids]] =
                  [i \in 1..Len(n) |-> [name |-> n[i].name, ids |-> SlideIds(n[i], s.n)]], "section-list-content")
         \cup Bad(Cardinality({o.xml[i].guid : i \in 1..Len(o.xml)}) = Len(o.xml) /\ \A i \in 1..Len(o.xml) : o.xml[i].guidok, "section-ids-distinct")]
=============================================================================
