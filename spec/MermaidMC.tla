----------------------------- MODULE MermaidMC -----------------------------
(* Every diagram of at most MaxLen statements from a small vocabulary, statement by statement. *)
EXTENDS Mermaid, FiniteSets, Json
CONSTANTS MaxLen, EmitLen
VARIABLES kind, st, m
vars == <<kind, st, m>>

N(id, t, sh) == [id |-> id, t |-> t, sh |-> sh]
FlowNodes == {N("A", "A", ""), N("B", "B", ""), N("A", "One", "rect"), N("B", "Two", "diamond"), N("C", "A", "circle")}
Chain(ns, ls) == [k |-> "chain", ns |-> ns, ls |-> ls]
L(s, t) == [st |-> s, l |-> t]
Vocabulary(k) ==
  CASE k = "flow" -> {Chain(<<n>>, <<>>) : n \in FlowNodes}
         \cup {Chain(<<a, b>>, <<l>>) : a \in {N("A", "A", ""), N("B", "Two", "round")}, b \in {N("A", "One", "hexagon"), N("C", "C", ""), N("B", "B", "")}, l \in {L("arrow", ""), L("open", "Yes")}}
         \cup {Chain(<<N("A", "A", ""), N("B", "Two", "stadium"), N("C", "C", "")>>, <<L("dotted", "No"), L("thick", "")>>),
               [k |-> "sub", t |-> "Group"], [k |-> "end"]}
    [] k = "sequence" -> {[k |-> "part", id |-> i, t |-> t] : i \in {"A", "B"}, t \in {"", "Alice"}}
         \cup {[k |-> "msg", a |-> a, b |-> b, t |-> t, dash |-> FALSE] : a \in {"A", "B", "C"}, b \in {"A", "B"}, t \in {"Hi", "Bye"}}
    [] k = "pie" -> {[k |-> "slice", t |-> t, v |-> v] : t \in {"Cats", "Dogs"}, v \in {0, 1, 2, 30}}
    [] k = "gantt" -> {[k |-> "title", t |-> "Plan"]} \cup {[k |-> "section", t |-> t] : t \in {"Build", "Test"}} \cup {[k |-> "task", t |-> t] : t \in {"Dig", "Pour"}}
    [] k = "class" -> {[k |-> "class", id |-> "A", as |-> <<>>, ms |-> <<>>, open |-> FALSE], [k |-> "class", id |-> "A", as |-> <<"+int x", "-int y">>, ms |-> <<"+run()">>, open |-> TRUE],
         [k |-> "class", id |-> "B", as |-> <<>>, ms |-> <<"+go()">>, open |-> TRUE], [k |-> "member", id |-> "A", t |-> "+size()", call |-> TRUE], [k |-> "member", id |-> "C", t |-> "+int z", call |-> FALSE]}
         \cup {[k |-> "rel", a |-> a, b |-> b, op |-> o, l |-> ""] : a \in {"A", "B"}, b \in {"A", "C"}, o \in {"<|--", "o--", "..>"}}
    [] k = "er" -> {[k |-> "class", id |-> i, as |-> q, ms |-> <<>>, open |-> TRUE] : i \in {"Foo", "Bar"}, q \in {<<>>, <<"int id", "string name">>}}
         \cup {[k |-> "rel", a |-> a, b |-> b, op |-> o, l |-> l] : a \in {"Foo", "Bar"}, b \in {"Bar", "Odo"}, o \in {"||--o{", "}o..||"}, l \in {"", "has"}}
    [] k = "state" -> {[k |-> "go", a |-> a, b |-> b, l |-> l] : a \in {"*", "Idle", "Busy"}, b \in {"*", "Idle", "Done"}, l \in {"", "work"}}
    [] k = "mindmap" -> {[k |-> "idea", t |-> t, lvl |-> l] : t \in {"Sun", "Moon"}, l \in 0..2}
    [] k = "timeline" -> {[k |-> "title", t |-> "Years"]} \cup {[k |-> "date", t |-> t, item |-> i] : t \in {"2001", "2002"}, i \in {"", "Rain"}} \cup {[k |-> "more", t |-> t, colon |-> TRUE] : t \in {"Snow", "Hail"}}
    [] k = "journey" -> {[k |-> "section", t |-> t] : t \in {"Shop", "Home"}} \cup {[k |-> "step", t |-> t, v |-> v] : t \in {"Pay", "Eat"}, v \in {1, 5}}
    [] k = "quadrant" -> {[k |-> "quad", n |-> n, t |-> t] : n \in {1, 2, 4}, t \in {"Do"}} \cup {[k |-> "point", t |-> t, x |-> x, y |-> y] : t \in {"P", "Q"}, x \in {0, 40, 100}, y \in {20, 90}}
    [] k = "git" -> {[k |-> "commit", t |-> t] : t \in {"", "Fix"}} \cup {[k |-> o, b |-> b] : o \in {"branch", "checkout", "merge"}, b \in {"main", "dev", "new"}}

Init == kind \in Kinds /\ st = <<>> /\ m = Start0(kind)
Next == /\ Len(st) < MaxLen
        /\ \E s \in Vocabulary(kind) : Allowed(m, s) /\ st' = Append(st, s) /\ m' = Read(m, s)
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars

D == [k |-> kind, st |-> st]
W == Shown(m)
Count(q, T(_)) == Cardinality({i \in DOMAIN q : T(q[i])})
(* reading one by one is reading the whole *)
Stepwise == m = Machine(D)
(* every id is one node, whoever mentions it *)
Mentioned(s) == CASE s.k = "chain" -> {s.ns[i].id : i \in DOMAIN s.ns} [] s.k \in {"msg", "rel"} -> {s.a, s.b} [] s.k \in {"part", "class", "member"} -> {s.id}
                  [] s.k = "go" -> {EndName(s.a, FALSE), EndName(s.b, TRUE)} [] OTHER -> {}
Once == kind \in {"flow", "sequence", "class", "er", "state"} =>
          /\ {m.nodes[i].id : i \in DOMAIN m.nodes} = UNION {Mentioned(st[i]) : i \in DOMAIN st}
          /\ \A i, j \in DOMAIN m.nodes : m.nodes[i].id = m.nodes[j].id => i = j
(* every declared text is shown *)
Declared(s) == CASE s.k \in {"slice", "title", "section", "idea", "quad", "point"} -> {s.t} [] s.k = "task" -> {s.t}
                 [] s.k = "msg" -> {s.t} [] s.k = "class" -> {s.as[i] : i \in DOMAIN s.as} \cup {s.ms[i] : i \in DOMAIN s.ms} \cup {s.id}
                 [] s.k = "member" -> {s.t, s.id} [] s.k = "date" -> {s.t} \cup (IF s.item = "" THEN {} ELSE {s.item}) [] s.k = "more" -> {s.t}
                 [] s.k = "sub" -> {s.t} [] s.k \in {"commit"} -> (IF s.t = "" THEN {} ELSE {s.t}) [] s.k = "branch" -> {s.b}
                 [] s.k = "chain" -> {s.ls[i].l : i \in DOMAIN s.ls} \ {""} [] s.k = "go" -> {s.l} \ {""} [] s.k = "rel" -> IF kind = "er" THEN {s.l} \ {""} ELSE {}
                 [] OTHER -> {}
Lines == UNION {{W.items[i].t[j] : j \in DOMAIN W.items[i].t} : i \in DOMAIN W.items}
Closed == ~m.open
NothingLost == Closed => \A i \in DOMAIN st : Declared(st[i]) \subseteq Lines \/ (st[i].k = "quad" /\ m.quads[st[i].n] \in Lines)
(* a flowchart node shows the label of its last definition *)
LastLabel == (kind = "flow" /\ Closed) =>
  \A id \in {m.nodes[i].id : i \in DOMAIN m.nodes} :
    LET defs == Cat([i \in DOMAIN st |-> IF st[i].k = "chain" THEN SelectSeq(st[i].ns, LAMBDA n : n.id = id) ELSE <<>>])
        full == SelectSeq(defs, LAMBDA n : n.sh # "")
        want == IF full = <<>> THEN id ELSE full[Len(full)].t
    IN m.nodes[At(m.nodes, id)].t = want
(* links join what their ends show, and there are as many as written *)
Ends == Closed =>
  /\ \A i \in DOMAIN W.links : W.links[i].a \in DOMAIN W.items /\ W.links[i].b \in DOMAIN W.items
       /\ W.items[W.links[i].a].c = "node" /\ W.items[W.links[i].b].c = "node"
       /\ (kind \in {"class", "er"} => W.items[W.links[i].a].t = <<m.links[i].a>> /\ W.items[W.links[i].b].t = <<m.links[i].b>>)
       /\ (kind = "flow" => W.items[W.links[i].a].t = <<m.nodes[At(m.nodes, m.links[i].a)].t>>)
  /\ Len(m.links) = Len(Cat([i \in DOMAIN st |-> IF st[i].k = "chain" THEN st[i].ls ELSE IF st[i].k \in {"msg", "rel", "go"} THEN <<1>> ELSE <<>>]))
(* no node is drawn twice *)
DrawnOnce == (kind = "flow" /\ Closed) => Count(W.items, LAMBDA x : x.c = "node") = Len(m.nodes) + Len(m.groups)
OneGroup == kind = "flow" => \A g, h \in DOMAIN m.groups : g # h => \A i \in DOMAIN m.groups[g].ns : ~Has(m.groups[h].ns, m.groups[g].ns[i])
(* two copies on one slide keep apart *)
Twice == Closed => LET t == Together(<<D, D>>) IN
  /\ Len(t.items) = 2 * Len(W.items) /\ Len(t.links) = 2 * Len(W.links)
  /\ \A i \in DOMAIN t.links : t.of[t.links[i].a] = t.of[t.links[i].b]
Emitted == (Len(st) <= EmitLen /\ Len(st) > 0 /\ Closed) => PrintT("@@" \o ToJson(D))
=============================================================================
