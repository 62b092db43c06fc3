------------------------------- MODULE EditMC -------------------------------
(* Editing sessions: the abstract sequence of slides against the numbered slide    *)
(* parts, relationship targets and notes that an editor moves about step by step.  *)
EXTENDS Edit, TLC, Json
CONSTANTS MaxInit, MaxSlides, MaxOps, Emit
VARIABLES seq, pk, hist, init, next, open
vars == <<seq, pk, hist, init, next, open>>

(* initial decks: link pattern and notes pattern *)
LinkPat == {"none", "first-to-last", "last-to-first", "self"}
NotesPat == {"none", "all", "second"}
Lk(n, p, i) == CASE p = "first-to-last" /\ i = 1 /\ n > 1 -> n [] p = "last-to-first" /\ i = n /\ n > 1 -> 1 [] p = "self" /\ i = n -> n [] OTHER -> 0
Nt(p, i) == p = "all" \/ (p = "second" /\ i = 2)

NoOf(n, q, i) == IF Nt(q, i) THEN Cardinality({k \in 1..i : Nt(q, k)}) ELSE 0
(* how the file that is opened is laid out: fs[i] is the number of the part of slide i, ls the slides listed *)
Plain(n) == [fs |-> [i \in 1..n |-> i], ls |-> [i \in 1..n |-> i]]
Inj(m, S) == {f \in [1..m -> S] : \A i, j \in 1..m : f[i] = f[j] => i = j}
Files(n) == {fs \in Inj(n, 1..(n + 1)) : \A i \in 1..(n - 1) : fs[i] < fs[i + 1]}
Layouts(n) == {[fs |-> fs, ls |-> ls] : fs \in Files(n), ls \in UNION {Inj(m, 1..n) : m \in 1..n}}
Pos(ls, i) == IF i \in {ls[k] : k \in DOMAIN ls} THEN CHOOSE k \in DOMAIN ls : ls[k] = i ELSE 0
Limit == IF init.ar = Plain(init.n) THEN MaxOps ELSE MaxOps - 1
Init ==
  \E n \in 1..MaxInit, p \in LinkPat, q \in NotesPat :
  \E ar \in {Plain(n)} \cup (IF p \in {"first-to-last", "last-to-first"} /\ q # "second" THEN Layouts(n) ELSE {}) :
    LET F(i) == IF i = 0 THEN 0 ELSE ar.fs[i]
        At(f) == CHOOSE i \in 1..n : ar.fs[i] = f IN
    /\ seq = [k \in DOMAIN ar.ls |-> [key |-> ar.ls[k], links |-> <<IF Pos(ar.ls, Lk(n, p, ar.ls[k])) = 0 THEN 0 ELSE Lk(n, p, ar.ls[k])>>, notes |-> Nt(q, ar.ls[k])]]
    /\ pk = [sl |-> [f \in {ar.fs[i] : i \in 1..n} |-> [key |-> At(f), tgt |-> F(Lk(n, p, At(f))), nf |-> NoOf(n, q, At(f))]],
             nb |-> [f \in {NoOf(n, q, i) : i \in 1..n} \ {0} |-> F(CHOOSE i \in 1..n : NoOf(n, q, i) = f)]]
    /\ init = [n |-> n, link |-> p, notes |-> q, ar |-> ar]
    /\ hist = <<>> /\ next = n + 1 /\ open = FALSE

(* ------------------------------------------------- the numbered parts, step by step *)
Temp == 99
(* part a becomes part b; whatever pointed at a points at b *)
Mv(p, a, b) ==
  LET R(t) == IF t = a THEN b ELSE t
      D == (DOMAIN p.sl \ {a}) \cup (IF a \in DOMAIN p.sl THEN {b} ELSE {})
  IN [sl |-> [n \in D |-> LET r == p.sl[IF n = b THEN a ELSE n] IN [r EXCEPT !.tgt = R(@)]],
      nb |-> [f \in DOMAIN p.nb |-> R(p.nb[f])]]
RECURSIVE MvAll(_, _)
MvAll(p, ms) == IF ms = <<>> THEN p ELSE MvAll(Mv(p, Head(ms)[1], Head(ms)[2]), Tail(ms))
N(p) == Cardinality(DOMAIN p.sl)
Up(p, from) == MvAll(p, [k \in 1..(N(p) - from + 1) |-> LET i == N(p) - k + 1 IN <<i, i + 1>>])       \* from.. shift right, last first
PutS(p, i, r) == [p EXCEPT !.sl = [n \in DOMAIN @ \cup {i} |-> IF n = i THEN r ELSE @[n]]]
FreshNf(p) == CHOOSE f \in 1..(Cardinality(DOMAIN p.nb) + 1) : f \notin DOMAIN p.nb /\ \A g \in 1..(f - 1) : g \in DOMAIN p.nb

Drop(p, i) ==
  LET f == p.sl[i].nf
  IN [sl |-> [n \in DOMAIN p.sl \ {i} |-> [p.sl[n] EXCEPT !.tgt = IF @ = i THEN 0 ELSE @]], nb |-> [g \in DOMAIN p.nb \ {f} |-> p.nb[g]]]
RECURSIVE DropAll(_, _)
DropAll(p, S) == IF S = {} THEN p ELSE LET i == CHOOSE x \in S : TRUE IN DropAll(Drop(p, i), S \ {i})
(* opening: unlisted parts go, listed ones are numbered as listed, by way of numbers nothing has *)
COpen(p, ar) ==
  LET want == [k \in DOMAIN ar.ls |-> ar.fs[ar.ls[k]]]
      q == DropAll(p, DOMAIN p.sl \ {want[k] : k \in DOMAIN want})
  IN MvAll(MvAll(q, [k \in DOMAIN want |-> <<want[k], Temp + k>>]), [k \in DOMAIN want |-> <<Temp + k, k>>])
CRemove(p, i) ==
  LET q == Drop(p, i) IN MvAll(q, [k \in 1..(N(p) - i) |-> <<i + k, i + k - 1>>])
CInsert(p, i, key) == PutS(Up(p, i), i, [key |-> key, tgt |-> 0, nf |-> 0])
CDup(p, i, key) ==
  LET q == Up(p, i + 1)
      f == IF q.sl[i].nf = 0 THEN 0 ELSE FreshNf(q)
      q2 == IF f = 0 THEN q ELSE [q EXCEPT !.nb = [g \in DOMAIN @ \cup {f} |-> IF g = f THEN i + 1 ELSE @[g]]]
  IN PutS(q2, i + 1, [q.sl[i] EXCEPT !.key = key, !.nf = f])
CReorder(p, a, b) ==
  IF a = b THEN p ELSE
  LET q == Mv(p, a, Temp)
      q2 == IF a < b THEN MvAll(q, [k \in 1..(b - a) |-> <<a + k, a + k - 1>>]) ELSE MvAll(q, [k \in 1..(a - b) |-> <<a - k, a - k + 1>>])
  IN Mv(q2, Temp, b)
CUpdate(p, i) == [p EXCEPT !.sl[i].tgt = 0]
CApply(op, p, key) ==
  IF ~EValid(op, N(p)) THEN p ELSE
  CASE op.name = "add" -> PutS(p, N(p) + 1, [key |-> key, tgt |-> 0, nf |-> 0])
    [] op.name = "insert" -> CInsert(p, op.i + 1, key)
    [] op.name = "update" -> CUpdate(p, op.i + 1)
    [] op.name = "dup" -> CDup(p, op.i + 1, key)
    [] op.name = "remove" -> CRemove(p, op.i + 1)
    [] op.name = "reorder" -> CReorder(p, op.i + 1, op.j + 1)
    [] OTHER -> p

New(k) == [key |-> k, links |-> <<0>>, notes |-> FALSE]
Op(nm, i, j) == [name |-> nm, i |-> i, j |-> j]
Ops(n) ==
  (IF n < MaxSlides THEN {Op("add", 0, 0)} \cup {Op("insert", i, 0) : i \in 0..(n + 1)} \cup {Op("dup", i, 0) : i \in 0..n} ELSE {})
  \cup {Op("update", i, 0) : i \in 0..n} \cup {Op("remove", i, 0) : i \in 0..n}
  \cup {Op("reorder", i, j) : i, j \in 0..n} \cup {Op("reopen", 0, 0)}

Do(op) ==
  /\ open /\ Len(hist) < Limit
  /\ hist' = Append(hist, op)
  /\ seq' = EApply(op, seq, New(next))
  /\ pk' = CApply(op, pk, next)
  /\ next' = IF EValid(op, Len(seq)) /\ op.name \in {"add", "insert", "dup"} THEN next + 1 ELSE next
  /\ UNCHANGED <<init, open>>
Open == ~open /\ open' = TRUE /\ pk' = COpen(pk, init.ar) /\ UNCHANGED <<seq, hist, init, next>>
Next == Open \/ \E op \in Ops(Len(seq)) : Do(op)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
SameOrder == open => (DOMAIN pk.sl = 1..Len(seq)) /\ \A i \in 1..Len(seq) : pk.sl[i].key = seq[i].key
LinksFollow == open => \A i \in 1..Len(seq) : LET t == pk.sl[i].tgt k == seq[i].links[1] IN IF k = 0 THEN t = 0 ELSE t \in DOMAIN pk.sl /\ pk.sl[t].key = k
NoDangling == open => \A i \in 1..Len(seq) : pk.sl[i].tgt \in {0} \cup DOMAIN pk.sl
NotesFollow == open =>
  /\ \A i \in 1..Len(seq) : (pk.sl[i].nf # 0) <=> seq[i].notes
  /\ \A i \in 1..Len(seq) : pk.sl[i].nf # 0 => pk.sl[i].nf \in DOMAIN pk.nb /\ pk.nb[pk.sl[i].nf] = i
  /\ DOMAIN pk.nb = {pk.sl[i].nf : i \in 1..Len(seq)} \ {0}
KeysUnique == \A i, j \in 1..Len(seq) : seq[i].key = seq[j].key => i = j
Emitted == (Emit /\ open /\ Len(hist) = Limit) => PrintT("@@" \o ToJson([init |-> init, ops |-> hist]))
=============================================================================
