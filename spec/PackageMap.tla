----------------------------- MODULE PackageMap -----------------------------
(* O01: an OPC package container is a map from part names to bytes.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC
Empty == [x \in {} |-> ""]
Put(p, n, v) == [x \in DOMAIN p \cup {n} |-> IF x = n THEN v ELSE p[x]]
Del(p, n) == [x \in DOMAIN p \ {n} |-> p[x]]
Get(p, n) == IF n \in DOMAIN p THEN p[n] ELSE "none"
\* op.of is the abstraction of the bytes given; appending is concatenation of hex digits
ApplyPk(p, op) ==
  CASE op.name = "add" -> [st |-> Put(p, op.part, op.data), ret |-> ""]
    [] op.name = "remove" -> [st |-> IF op.part \in DOMAIN p THEN Del(p, op.part) ELSE p, ret |-> Get(p, op.part)]
    [] op.name = "append" -> [st |-> IF op.part \in DOMAIN p THEN Put(p, op.part, p[op.part] \o op.data) ELSE p,
                              ret |-> IF op.part \in DOMAIN p THEN "some" ELSE "none"]
    [] op.name \in {"get", "string"} -> [st |-> p, ret |-> Get(p, op.part)]
    [] op.name = "has" -> [st |-> p, ret |-> IF op.part \in DOMAIN p THEN "true" ELSE "false"]
    [] op.name \in {"mem", "file"} -> [st |-> p, ret |-> "ok"]
    [] OTHER -> [st |-> p, ret |-> ""]
=============================================================================
