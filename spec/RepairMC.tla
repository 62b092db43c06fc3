------------------------------ MODULE RepairMC ------------------------------
(* A deck of N slides is damaged and repaired.  Abstract package: which of the four core   *)
(* parts exist, which slide parts exist, the slide relationships, the slide list, and one   *)
(* further part with a relationship from a slide and a content type.  Repair works through  *)
(* the issues found once, in order; each step looks again whether its issue still stands.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, MaxDamage, Emit
VARIABLES p, hist, done
vars == <<p, hist, done>>

Rng(s) == {s[i] : i \in DOMAIN s}
Slides == 1..N
CoreParts == {"types", "root", "pres", "prel"}
Intact == [core |-> CoreParts, slide |-> Slides, rel |-> [i \in Slides |-> [id |-> i + 1, to |-> i]], list |-> [i \in Slides |-> i + 1],
           extra |-> TRUE, extraRel |-> TRUE, typed |-> TRUE]

Sel(s, T(_)) == SelectSeq(s, T)
(* ---------------------------------------------------------------- damage *)
Damages == {[k |-> "part", x |-> c] : c \in CoreParts}
      \cup {[k |-> k, i |-> i] : k \in {"slide", "rel", "entry", "twice", "away"}, i \in Slides}
      \cup {[k |-> "extra"], [k |-> "type"]}
Hurt(q, d) ==
  CASE d.k = "part" -> [q EXCEPT !.core = @ \ {d.x}, !.list = IF d.x = "pres" THEN <<>> ELSE @, !.rel = IF d.x = "prel" THEN <<>> ELSE @, !.typed = IF d.x = "types" THEN TRUE ELSE @]
    [] d.k = "slide" -> [q EXCEPT !.slide = @ \ {d.i}]
    [] d.k = "rel" -> [q EXCEPT !.rel = Sel(@, LAMBDA r : r.to # d.i)]
    [] d.k = "entry" -> [q EXCEPT !.list = Sel(@, LAMBDA e : e # d.i + 1)]
    [] d.k = "twice" -> [q EXCEPT !.list = IF d.i + 1 \in Rng(@) THEN Append(@, d.i + 1) ELSE @]
    \* the relationship of a slide leads to the next one instead
    [] d.k = "away" -> [q EXCEPT !.rel = [j \in DOMAIN @ |-> IF @[j].id = d.i + 1 THEN [@[j] EXCEPT !.to = (d.i % N) + 1] ELSE @[j]]]
    [] d.k = "extra" -> [q EXCEPT !.extra = FALSE]
    [] d.k = "type" -> [q EXCEPT !.typed = "types" \notin q.core]

(* ---------------------------------------------------------------- what stands *)
RelTo(q, id) == {r.to : r \in {x \in Rng(q.rel) : x.id = id}}
Lead(q, id) == RelTo(q, id) \cap q.slide
RECURSIVE Walk(_, _, _)
Walk(q, i, seen) == IF i > Len(q.list) THEN <<>> ELSE LET t == Lead(q, q.list[i]) IN
                    IF t = {} \/ t \subseteq seen THEN Walk(q, i + 1, seen) ELSE <<CHOOSE x \in t : TRUE>> \o Walk(q, i + 1, seen \cup t)
Listed(q) == Walk(q, 1, {})
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Presented(q) == Listed(q) \o Asc(q.slide \ Rng(Listed(q)))

Issues(q) ==
       {<<"part", c>> : c \in CoreParts \ q.core}
  \cup {<<"dangling", r.id>> : r \in {x \in Rng(q.rel) : x.to \notin q.slide}}
  \cup (IF q.extraRel /\ ~q.extra THEN {<<"dangling", 0>>} ELSE {})
  \cup {<<"orphan", r.to>> : r \in {x \in Rng(q.rel) : x.to \notin q.slide}}
  \cup {<<"entry", q.list[i]>> : i \in {j \in DOMAIN q.list : Lead(q, q.list[j]) = {} \/ \E h \in 1..(j - 1) : Lead(q, q.list[h]) = Lead(q, q.list[j])}}
  \cup {<<"unlisted", s>> : s \in q.slide \ Rng(Listed(q))}
  \cup (IF "types" \in q.core /\ ~q.typed /\ q.extra THEN {<<"type", 0>>} ELSE {})

(* ---------------------------------------------------------------- repair *)
Parts(q) == [q EXCEPT !.core = CoreParts]
Dangling(q) == [q EXCEPT !.rel = Sel(@, LAMBDA r : r.to \in q.slide), !.extraRel = q.extraRel /\ q.extra]
RECURSIVE Kept(_, _, _)
Kept(q, i, seen) == IF i > Len(q.list) THEN <<>> ELSE LET t == Lead(q, q.list[i]) IN
                    IF t = {} \/ t \subseteq seen THEN Kept(q, i + 1, seen) ELSE <<q.list[i]>> \o Kept(q, i + 1, seen \cup t)
Entries(q) == [q EXCEPT !.list = Kept(q, 1, {})]
Fresh(q) == LET used == {r.id : r \in Rng(q.rel)} \cup Rng(q.list) \cup {1} IN CHOOSE m \in 2..(3 * N + 3) : m \notin used /\ \A y \in used : y < m
RECURSIVE Enlist(_, _)
Enlist(q, S) == IF S = {} THEN q ELSE
  LET s == CHOOSE x \in S : \A y \in S : x <= y
      have == {r.id : r \in {x \in Rng(q.rel) : x.to = s}}
      id == IF have # {} THEN CHOOSE x \in have : \A y \in have : x <= y ELSE Fresh(q)
      q1 == IF have # {} THEN q ELSE [q EXCEPT !.rel = Append(@, [id |-> id, to |-> s])]
  IN Enlist([q1 EXCEPT !.list = Append(@, id)], S \ {s})
Typed(q) == [q EXCEPT !.typed = TRUE]
Repair(q) == LET a == Entries(Dangling(Parts(q))) IN Typed(Enlist(a, a.slide \ Rng(Listed(a))))

Init == p = Intact /\ hist = <<>> /\ done = FALSE
Damage == /\ ~done /\ Len(hist) < MaxDamage
          /\ \E d \in Damages : d \notin Rng(hist) /\ Hurt(p, d) # p /\ p' = Hurt(p, d) /\ hist' = Append(hist, d)
          /\ UNCHANGED done
Mend == ~done /\ done' = TRUE /\ p' = Repair(p) /\ UNCHANGED hist
Next == Damage \/ Mend
Spec == Init /\ [][Next]_vars

(* ---------------------------------------------------------------- properties *)
Sound == done => Issues(p) = {}
Idempotent == done => Repair(p) = p
NothingLost == ~done => LET q == Repair(p) IN q.slide = p.slide /\ Listed(q) = Presented(p) /\ Len(q.list) = Cardinality(p.slide)
Untouched == (~done /\ Issues(p) = {}) => Repair(p) = p
Reported == (~done /\ p # Intact /\ Issues(p) = {}) => /\ p.core = CoreParts /\ Rng(Listed(p)) = p.slide /\ Len(p.list) = Cardinality(p.slide)
Emitted == (Emit /\ ~done) => PrintT("@@" \o ToJson(hist))
=============================================================================
