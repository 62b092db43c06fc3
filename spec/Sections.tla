------------------------------ MODULE Sections ------------------------------
(* S01: the section manager.  State: a sequence of sections ordered by first     *)
(* slide (ties keep their order of addition).                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
Big == 1000000   \* stands for the largest machine index; arithmetic saturates there
MinOf(a, b) == IF a < b THEN a ELSE b
Sat(a, b) == MinOf(a + b, Big)

Sec(n, f, c) == [name |-> n, first |-> f, count |-> c]
Covers(x, i) == i >= x.first /\ i < Sat(x.first, x.count)
LastSlide(x) == IF x.count = 0 THEN x.first ELSE Sat(x.first, x.count - 1)
Overlap(a, b) == a.count > 0 /\ b.count > 0 /\ a.first < Sat(b.first, b.count) /\ b.first < Sat(a.first, a.count)

InsertPos(ss, x) == Cardinality({i \in 1..Len(ss) : ss[i].first <= x.first}) + 1
AddOk(ss, x) == \A i \in 1..Len(ss) : ~Overlap(ss[i], x)
AddSec(ss, x) == IF AddOk(ss, x) THEN InsertAt(ss, InsertPos(ss, x), x) ELSE ss
Named(ss, n) == {i \in 1..Len(ss) : ss[i].name = n}
DropSec(ss, n) == SelectSeq(ss, LAMBDA x : x.name # n)
FirstOf(S) == CHOOSE i \in S : \A j \in S : i <= j
RenameSec(ss, n, m) == IF Named(ss, n) = {} THEN ss ELSE [ss EXCEPT ![FirstOf(Named(ss, n))].name = m]

Apply(ss, op) ==
  CASE op.name = "add" -> [st |-> AddSec(ss, Sec(op.sec, op.first, op.count)), ok |-> AddOk(ss, Sec(op.sec, op.first, op.count))]
    [] op.name = "remove" -> [st |-> DropSec(ss, op.sec), ok |-> Named(ss, op.sec) # {}]
    [] op.name = "rename" -> [st |-> RenameSec(ss, op.sec, op.to), ok |-> Named(ss, op.sec) # {}]
    [] OTHER -> [st |-> <<>>, ok |-> TRUE]

\* ids of the slides a section lists in the generated part, for a deck of n slides
SlideIds(x, n) == [k \in 1..Cardinality({i \in 0..(n - 1) : Covers(x, i)}) |-> 255 + x.first + k]

\* ------------------------------------------------ design properties
Sorted(ss) == \A i, j \in 1..Len(ss) : i < j => ss[i].first <= ss[j].first
AtMostOne(ss, n) == \A i \in 0..n : Cardinality({k \in 1..Len(ss) : Covers(ss[k], i)}) <= 1
=============================================================================
