---------------------------- MODULE RepairTrace ----------------------------
(* Judges what the package validator and the repair tool do with damaged packages.          *)
(* The state is the damaged package (with what a repair of its text must give).              *)
EXTENDS TraceLib, Damage

RStart(e) == [p |-> e.op.pkg, damaged |-> e.op.damaged, text |-> e.op.text, fonts |-> e.op.fonts, fallback |-> e.op.fallback, badrels |-> Rng(e.op.badrels)]
Ok(cond, name) == IF cond THEN {} ELSE {name}
Sha(p, n) == LET s == {x[2] : x \in {y \in Rng(p.sha) : y[1] = n}} IN IF s = {} THEN "none" ELSE CHOOSE x \in s : TRUE

(* -------------------------------------------------------- the validator *)
Disagree(p) == Len(Listed(p)) # Len(p.sldIds) \/ Unlisted(p) # {}
Must(p) ==
       {<<"MissingPart", n>> : n \in Required \ All(p)}
  \cup {<<"Relationship", Rp(p, r.src)>> : r \in Broken(p)}
  \cup {<<"ContentType", n>> : n \in Untyped(p) \ Rng(p.relparts)}
  \cup {<<"Xml", n>> : n \in Rng(p.bad)}
  \cup (IF PRES \in All(p) /\ PRES \notin Rng(p.bad) /\ Disagree(p) THEN {<<"Presentation", PRES>>} ELSE {})
Errors(o) == {<<x[2], x[3]>> : x \in {y \in Rng(o.issues) : y[1] = "Error"}}
Validate(o, s) ==
       Ok(Must(s.p) \subseteq Errors(o), "damage-not-reported")
  \cup Ok(o.valid = (Errors(o) = {}), "verdict")
  \cup Ok(s.damaged \/ o.valid, "valid-package-rejected")
  \cup Ok(Must(s.p) # {} => ~o.valid, "damaged-package-accepted")

(* ------------------------------------------------------- the repair tool *)
Issues(p) ==
       {<<"part", n, "">> : n \in Core \ All(p)}
  \cup {<<"xml", n, "">> : n \in Rng(p.bad)}
  \cup {<<"rel", Rp(p, r.src), r.id>> : r \in Broken(p)}
  \cup {<<"rel", PRES, p.sldIds[i].rid>> : i \in {j \in DOMAIN p.sldIds : LET t == LeadsTo(p, p.sldIds[j]) IN t = "" \/ \E h \in 1..(j - 1) : LeadsTo(p, p.sldIds[h]) = t}}
  \cup {<<"orphan", r.tg, "">> : r \in {x \in SlideRels(p) : x.tg \notin All(p)}}
  \cup {<<"unlisted", n, "">> : n \in Unlisted(p)}
  \cup {<<"type", n, "">> : n \in Untyped(p) \ Rng(p.relparts)}
Tri(v) == {<<x[1], x[2], x[3]>> : x \in Rng(v)}
Torn(s) == {x[1] : x \in {y \in Rng(s.text) : y[2] = "torn"}}
LostOther(p) == \E r \in Broken(p) : r.src # PRES \/ r.ty # "slide"
Keep(p) == {r \in Rng(p.rels) : r \notin Broken(p)}

Mended(o, s) ==
  LET p == s.p
      q == o.pkg
  IN   Ok(All(q) = All(p) \cup Core, "parts-of-the-repaired-package")
  \cup Ok([i \in DOMAIN q.sldIds |-> q.sldIds[i].tg] = Presented(p), "slides-of-the-repaired-package")
  \cup Ok(Distinct([i \in DOMAIN q.sldIds |-> q.sldIds[i].id]) /\ \A x \in Rng(q.sldIds) : x.id >= 256, "slide-ids")
  \cup Ok(\A n \in All(p) \ (Core \cup Rng(p.relparts) \cup Rng(p.bad)) : Sha(q, n) = Sha(p, n), "part-changed")
  \cup Ok(\A r \in Rng(p.relparts) \ Core : (\A b \in Broken(p) : Rp(p, b.src) # r) => Sha(q, r) = Sha(p, r), "relationships-changed")
  \cup Ok(\A x \in Rng(s.text) : x[2] = "torn" \/ Sha(q, x[1]) = x[2], "repaired-text")
  \cup Ok(Keep(p) \subseteq Rng(q.rels), "relationship-lost")
  \cup Ok(\A r \in Rng(q.rels) \ Rng(p.rels) : (r.src = PRES /\ (r.ty = "slide" \/ PRESRELS \notin All(p))) \/ (r.src = ROOT /\ RELS \notin All(p)), "relationship-made-up")
  \cup Ok(Rng(q.bad) = Torn(s), "not-well-formed")
  \cup Ok((\A x \in Rng(s.text) : x[2] # "torn") => Issues(q) = {}, "issues-remain")
  \cup (IF Torn(s) # {} THEN {} ELSE Closed(q) \ ({"override-of-missing-part", "relationships-of-missing-part"}
        \cup (IF LostOther(p) THEN {"undeclared-relationship-id", "relationship-count", "slide-relationships"} ELSE {})
        \* which relationship led to an embedded font cannot be known again
        \cup (IF s.fonts /\ PRESRELS \notin All(p) THEN {"undeclared-relationship-id"} ELSE {})
        \* a type lost next to a general default is not seen as lost
        \cup (IF s.fallback THEN {"target-of-wrong-content-type", "slide-list-incomplete"} ELSE {})))

(* relationships that cannot be read hide the rest of the damage: one such part alone *)
Unreadable(o, s) ==
  LET a == o.once  b == o.twice IN
       Ok({<<"xml", n, "">> : n \in s.badrels} \subseteq Tri(a.seen), "issues-found")
  \cup Ok(Tri(a.repaired) \cup Tri(a.unrepaired) = Tri(a.found), "issues-accounted-for")
  \cup Ok(\A x \in Rng(s.text) : Sha(o.pkg, x[1]) = x[2], "repaired-text")
  \cup Ok(All(o.pkg) = All(s.p) \cup Core, "parts-of-the-repaired-package")
  \cup Ok(o.pkg.bad = <<>> /\ Issues(o.pkg) = {}, "issues-remain")
  \cup Ok(b.seen = <<>> /\ b.valid /\ o.pkg.sha = o.again.sha, "repairing-twice")
Repair(o, s) ==
  LET a == o.once  b == o.twice IN
       Ok(Tri(a.seen) = Issues(s.p), "issues-found")
  \cup Ok(Tri(a.found) = Tri(a.seen) /\ a.total = Len(a.found), "issues-found-by-repair")
  \cup Ok(Tri(a.repaired) \cup Tri(a.unrepaired) = Tri(a.found), "issues-accounted-for")
  \cup Ok(a.critical = Cardinality({i \in DOMAIN a.found : a.found[i][1] \in {"part", "xml", "entry"}}) /\ a.full = (a.unrepaired = <<>>), "result-summary")
  \cup Ok(a.valid = (Torn(s) = {}) /\ (a.after = <<>>) = a.valid, "verdict")
  \cup Ok(Torn(s) = {} => b.seen = <<>> /\ b.found = <<>> /\ b.valid, "valid-after-repair")
  \cup Ok(o.pkg.sha = o.again.sha, "repairing-twice")
  \cup Ok(Issues(s.p) = {} => o.pkg.sha = s.p.sha, "valid-package-changed")
  \cup Mended(o, s)

RJudge(e, s) ==
  LET o == e.obs
      c == IF o.panic THEN {"panic"} ELSE IF o.err THEN {"error"}
           ELSE IF e.op.name = "validate" THEN Validate(o, s) ELSE IF s.badrels # {} THEN Unreadable(o, s) ELSE Repair(o, s)
      id == IF e.op.name = "validate" THEN "V01:" ELSE "F01:"
  IN [st |-> s, bad |-> {id \o x : x \in c}, exp |-> [must |-> IF e.op.name = "validate" THEN Must(s.p) ELSE Issues(s.p)]]
=============================================================================
