-------------------------------- MODULE Edit --------------------------------
(* Editing operations on a sequence of slides.  Indices are zero-based as in the   *)
(* interface.  A slide is a record with at least a key (its identity), the keys    *)
(* its links go to (0 = nowhere) and whether it has notes.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

InsertAt2(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
DropAt(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
MoveTo(s, f, t) == InsertAt2(DropAt(s, f), t, s[f + 1])
Unlink(s, k) == [i \in DOMAIN s |-> [s[i] EXCEPT !.links = [j \in DOMAIN s[i].links |-> IF s[i].links[j] = k THEN 0 ELSE s[i].links[j]]]]

EValid(op, n) ==
  CASE op.name \in {"add", "reopen", "save"} -> TRUE
    [] op.name = "insert" -> op.i <= n
    [] op.name = "reorder" -> op.i < n /\ op.j < n
    [] OTHER -> op.i < n                         \* update, dup, remove, get

(* the value a successful operation returns (-1: nothing) *)
ERet(op, n) == CASE op.name = "add" -> n [] op.name = "insert" -> op.i [] op.name = "dup" -> op.i + 1 [] OTHER -> -1

(* x: the slide made of new content *)
EApply(op, s, x) ==
  IF ~EValid(op, Len(s)) THEN s ELSE
  CASE op.name = "add" -> Append(s, x)
    [] op.name = "insert" -> InsertAt2(s, op.i, x)
    [] op.name = "update" -> [s EXCEPT ![op.i + 1] = [x EXCEPT !.key = s[op.i + 1].key, !.notes = s[op.i + 1].notes]]
    [] op.name = "dup" -> InsertAt2(s, op.i + 1, [s[op.i + 1] EXCEPT !.key = x.key])
    [] op.name = "remove" -> Unlink(DropAt(s, op.i), s[op.i + 1].key)
    [] op.name = "reorder" -> MoveTo(s, op.i, op.j)
    [] OTHER -> s
=============================================================================
