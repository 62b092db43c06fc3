------------------------------ MODULE Mermaid ------------------------------
(* What a Mermaid diagram in Markdown means as shapes and connectors of a slide.  A diagram    *)
(* is a kind and a sequence of statements; reading a statement is one step of a machine whose  *)
(* state is what has been declared so far; Expect gives the texts that the slide must show, in *)
(* order, each as the text of one shape, and the connections between those shapes.             *)
EXTENDS Naturals, Integers, Sequences, TLC

Kinds == {"flow", "sequence", "pie", "gantt", "class", "state", "er", "mindmap", "timeline", "journey", "quadrant", "git"}
Has(q, x) == \E i \in DOMAIN q : q[i] = x
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Known(q, id) == \E i \in DOMAIN q : q[i].id = id
At(q, id) == CHOOSE i \in DOMAIN q : q[i].id = id
RECURSIVE Cat(_)
Cat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Cat(Tail(qs))
Map(Op(_), q) == [i \in DOMAIN q |-> Op(q[i])]
Opt(cond, x) == IF cond THEN <<x>> ELSE <<>>
Keep(q, Test(_)) == SelectSeq(q, Test)

(* one shown text: class of the text, its lines, share in tenths of a percent, geometry of the *)
(* shape if it matters, and numbers whose meaning depends on the class                         *)
Item(c, lines) == [c |-> c, t |-> lines, prst |-> "", a |-> 0, b |-> 0, x |-> 0, y |-> 0]
Link(a, b) == [a |-> a, b |-> b, dashed |-> "any", arrow |-> "any"]

(* ------------------------------------------------------------------ the machine *)
Begin(k) == [k |-> k, nodes |-> <<>>, links |-> <<>>, groups |-> <<>>, open |-> FALSE, title |-> "", branch |-> "main",
             quads |-> <<"", "", "", "">>]

(* a node of a flowchart: in order of first mention, the last definition with a label counts  *)
Mention(m, n) ==
  LET m1 == IF ~Known(m.nodes, n.id) THEN [m EXCEPT !.nodes = Append(@, n)]
            ELSE IF n.sh = "" THEN m ELSE [m EXCEPT !.nodes = [@ EXCEPT ![At(m.nodes, n.id)] = n]]
      placed == \E g \in DOMAIN m.groups : Has(m.groups[g].ns, n.id)
  IN IF m1.open /\ ~placed THEN [m1 EXCEPT !.groups[Len(m1.groups)].ns = Append(@, n.id)] ELSE m1
RECURSIVE MentionAll(_, _)
MentionAll(m, ns) == IF ns = <<>> THEN m ELSE MentionAll(Mention(m, Head(ns)), Tail(ns))
(* a class or entity: members are added to what is known of it *)
Declare(m, id, as, ms) ==
  IF Known(m.nodes, id) THEN LET i == At(m.nodes, id) IN [m EXCEPT !.nodes[i].as = @ \o as, !.nodes[i].ms = @ \o ms]
  ELSE [m EXCEPT !.nodes = Append(@, [id |-> id, as |-> as, ms |-> ms])]
Name(m, id, t) == IF Known(m.nodes, id) THEN m ELSE [m EXCEPT !.nodes = Append(@, [id |-> id, t |-> t])]
Arc(m, a, b, l) == [m EXCEPT !.links = Append(@, [a |-> a, b |-> b, l |-> l])]
Under(m, t) == [m EXCEPT !.groups = Append(@, [t |-> t, ns |-> <<>>])]
Into(m, x) == LET m1 == IF m.groups = <<>> THEN Under(m, "") ELSE m IN [m1 EXCEPT !.groups[Len(m1.groups)].ns = Append(@, x)]
EndName(id, last) == IF id # "*" THEN id ELSE IF last THEN "End" ELSE "Start"

Read(m, s) ==
  CASE s.k = "chain" -> LET m1 == MentionAll(m, s.ns) IN
         [m1 EXCEPT !.links = @ \o [i \in DOMAIN s.ls |-> [a |-> s.ns[i].id, b |-> s.ns[i + 1].id, l |-> s.ls[i].l, st |-> s.ls[i].st]]]
    [] s.k = "sub" -> [Under(m, s.t) EXCEPT !.open = TRUE]
    [] s.k = "end" -> [m EXCEPT !.open = FALSE]
    [] s.k = "part" -> Name(m, s.id, IF s.t = "" THEN s.id ELSE s.t)
    [] s.k = "msg" -> Arc(Name(Name(m, s.a, s.a), s.b, s.b), s.a, s.b, s.t)
    [] s.k = "slice" -> [m EXCEPT !.nodes = Append(@, [t |-> s.t, v |-> s.v])]
    [] s.k = "title" -> [m EXCEPT !.title = s.t]
    [] s.k = "section" -> Under(m, s.t)
    [] s.k \in {"task", "step"} -> Into(m, s)
    [] s.k = "class" -> Declare(m, s.id, s.as, s.ms)
    [] s.k = "member" -> Declare(m, s.id, IF s.call THEN <<>> ELSE <<s.t>>, IF s.call THEN <<s.t>> ELSE <<>>)
    [] s.k = "rel" -> Arc(Declare(Declare(m, s.a, <<>>, <<>>), s.b, <<>>, <<>>), s.a, s.b, s.l)
    [] s.k = "go" -> LET a == EndName(s.a, FALSE)  b == EndName(s.b, TRUE) IN Arc(Name(Name(m, a, a), b, b), a, b, s.l)
    [] s.k = "idea" -> [m EXCEPT !.nodes = Append(@, [t |-> s.t, lvl |-> s.lvl])]
    [] s.k = "date" -> LET m1 == Under(m, s.t) IN IF s.item = "" THEN m1 ELSE Into(m1, [t |-> s.item])
    [] s.k = "more" -> Into(m, [t |-> s.t])
    [] s.k = "quad" -> [m EXCEPT !.quads = [@ EXCEPT ![s.n] = s.t]]
    [] s.k = "point" -> [m EXCEPT !.nodes = Append(@, [t |-> s.t, x |-> s.x, y |-> s.y])]
    [] s.k = "commit" -> [m EXCEPT !.nodes = Append(@, [t |-> IF s.t = "" THEN "C" \o ToString(Len(m.nodes)) ELSE s.t, br |-> m.branch])]
    [] s.k = "merge" -> [m EXCEPT !.nodes = Append(@, [t |-> "Merge " \o s.b, br |-> m.branch])]
    [] s.k = "branch" -> [m EXCEPT !.groups = IF \E g \in DOMAIN @ : @[g].t = s.b THEN @ ELSE Append(@, [t |-> s.b, ns |-> <<>>]), !.branch = s.b]
    [] s.k = "checkout" -> [m EXCEPT !.branch = s.b]

RECURSIVE ReadAll(_, _)
ReadAll(m, ss) == IF ss = <<>> THEN m ELSE ReadAll(Read(m, Head(ss)), Tail(ss))
Start0(k) == IF k = "git" THEN [Begin(k) EXCEPT !.groups = <<[t |-> "main", ns |-> <<>>]>>] ELSE Begin(k)
Machine(d) == ReadAll(Start0(d.k), d.st)

(* statements that a diagram may continue with; the others have no agreed meaning *)
Allowed(m, s) ==
  CASE s.k = "sub" -> ~m.open
    [] s.k = "end" -> m.open
    [] s.k = "part" -> Known(m.nodes, s.id) => s.t = ""
    [] s.k = "title" -> m.title = ""
    [] s.k = "more" -> m.groups # <<>>
    [] s.k = "idea" -> IF s.lvl = 0 THEN m.nodes = <<>> ELSE m.nodes # <<>> /\ (s.lvl = 2 => \E i \in DOMAIN m.nodes : m.nodes[i].lvl = 1)
    [] s.k \in {"checkout", "merge"} -> \E g \in DOMAIN m.groups : m.groups[g].t = s.b
    [] OTHER -> TRUE

(* ------------------------------------------------------------------ what is shown *)
Geo(sh) == CASE sh \in {"", "rect"} -> "rect" [] sh \in {"round", "stadium"} -> "roundRect" [] sh = "diamond" -> "diamond"
             [] sh = "circle" -> "ellipse" [] sh = "hexagon" -> "hexagon"
Texts(q) == [i \in DOMAIN q |-> q[i].t]
Drawn(n) == [Item("node", <<n.t>>) EXCEPT !.prst = Geo(n.sh)]
(* order in which flowchart nodes are drawn: groups first, then the others *)
Grouped(m) == Cat([g \in DOMAIN m.groups |-> m.groups[g].ns])
Flow(m) ==
  LET node(id) == Drawn(m.nodes[At(m.nodes, id)])
      loose == Keep([i \in DOMAIN m.nodes |-> m.nodes[i].id], LAMBDA id : ~Has(Grouped(m), id))
      (* entries: "" marks a group title *)
      order == Cat([g \in DOMAIN m.groups |-> <<<<"title", m.groups[g].t>>>> \o [i \in DOMAIN m.groups[g].ns |-> <<"node", m.groups[g].ns[i]>>]])
               \o [i \in DOMAIN loose |-> <<"node", loose[i]>>]
      place(id) == Pos(order, <<"node", id>>)
  IN [items |-> [i \in DOMAIN order |-> IF order[i][1] = "node" THEN node(order[i][2]) ELSE Item("node", <<order[i][2]>>)]
                \o Cat([i \in DOMAIN m.links |-> Opt(m.links[i].l # "", Item("label", <<m.links[i].l>>))]),
      links |-> [i \in DOMAIN m.links |-> [a |-> place(m.links[i].a), b |-> place(m.links[i].b),
                   dashed |-> IF m.links[i].st = "dotted" THEN "yes" ELSE "no", arrow |-> IF m.links[i].st = "open" THEN "no" ELSE "yes"]]]
(* every participant stands above and below its line *)
Chat(m) == [items |-> Cat([i \in DOMAIN m.nodes |-> <<Item("node", <<m.nodes[i].t>>), Item("node", <<m.nodes[i].t>>)>>])
                      \o [i \in DOMAIN m.links |-> [Item("message", <<m.links[i].l>>) EXCEPT !.a = 2 * At(m.nodes, m.links[i].a) - 1, !.b = 2 * At(m.nodes, m.links[i].b) - 1]],
            links |-> <<>>]
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Head(q).v + Total(Tail(q))
Pie(m) == [items |-> [i \in DOMAIN m.nodes |-> [Item("slice", <<m.nodes[i].t>>) EXCEPT !.x = m.nodes[i].v, !.y = Total(m.nodes)]], links |-> <<>>]
Listed(m, show(_)) == Opt(m.title # "", Item("node", <<m.title>>))
  \o Cat([g \in DOMAIN m.groups |-> Opt(m.groups[g].t # "", Item("node", <<m.groups[g].t>>)) \o [i \in DOMAIN m.groups[g].ns |-> Item("node", <<show(m.groups[g].ns[i])>>)]])
Gantt(m) == [items |-> Listed(m, LAMBDA x : x.t), links |-> <<>>]
Journey(m) == [items |-> IF m.groups = <<>> THEN <<Item("node", <<"User Journey Diagram">>)>>
                         ELSE Listed([m EXCEPT !.title = ""], LAMBDA x : x.t \o " (" \o ToString(x.v) \o ")"), links |-> <<>>]
Timeline(m) == [items |-> Opt(m.title # "", Item("node", <<m.title>>))
                  \o Cat([g \in DOMAIN m.groups |-> <<Item("node", <<m.groups[g].t>>)>> \o Opt(m.groups[g].ns # <<>>, Item("node", Texts(m.groups[g].ns)))]),
                links |-> <<>>]
(* boxes of a class or entity: its name, then its members *)
Boxes(n) == <<Item("node", <<n.id>>)>> \o Opt(n.as # <<>>, Item("node", n.as)) \o Opt(n.ms # <<>>, Item("node", n.ms))
RECURSIVE Before(_, _)
Before(q, i) == IF i = 1 THEN 0 ELSE Before(q, i - 1) + Len(Boxes(q[i - 1]))
Boxed(m, labelled) ==
  LET place(id) == 1 + Before(m.nodes, At(m.nodes, id))
  IN [items |-> Cat([i \in DOMAIN m.nodes |-> Boxes(m.nodes[i])])
                \o IF labelled THEN Cat([i \in DOMAIN m.links |-> Opt(m.links[i].l # "", Item("label", <<m.links[i].l>>))]) ELSE <<>>,
      links |-> [i \in DOMAIN m.links |-> Link(place(m.links[i].a), place(m.links[i].b))]]
States(m) == [items |-> [i \in DOMAIN m.nodes |-> Item("node", <<m.nodes[i].t>>)]
                        \o Cat([i \in DOMAIN m.links |-> Opt(m.links[i].l # "", Item("label", <<m.links[i].l>>))]),
              links |-> [i \in DOMAIN m.links |-> Link(At(m.nodes, m.links[i].a), At(m.nodes, m.links[i].b))]]
Mindmap(m) == [items |-> Cat([l \in 1..3 |-> Map(LAMBDA n : Item("node", <<n.t>>), Keep(m.nodes, LAMBDA n : n.lvl = l - 1))]), links |-> <<>>]
Quadrant(m) == [items |-> Cat([i \in 1..4 |-> Opt(m.quads[i] # "", Item("node", <<m.quads[i]>>))])
                          \o IF m.nodes = <<>> THEN <<Item("label", <<"Quadrant Chart">>)>>
                             ELSE [i \in DOMAIN m.nodes |-> [Item("point", <<m.nodes[i].t>>) EXCEPT !.x = m.nodes[i].x, !.y = m.nodes[i].y]],
                links |-> <<>>]
Row(m, b) == CHOOSE g \in DOMAIN m.groups : m.groups[g].t = b
Git(m) == [items |-> [g \in DOMAIN m.groups |-> [Item("branch", <<m.groups[g].t>>) EXCEPT !.a = g]]
                     \o IF m.nodes = <<>> THEN <<Item("label", <<"Git Graph">>)>>
                        ELSE [i \in DOMAIN m.nodes |-> [Item("commit", <<m.nodes[i].t>>) EXCEPT !.a = Row(m, m.nodes[i].br)]],
           links |-> <<>>]
Shown(m) == CASE m.k = "flow" -> Flow(m) [] m.k = "sequence" -> Chat(m) [] m.k = "pie" -> Pie(m) [] m.k = "gantt" -> Gantt(m)
              [] m.k = "class" -> Boxed(m, FALSE) [] m.k = "er" -> Boxed(m, TRUE) [] m.k = "state" -> States(m) [] m.k = "mindmap" -> Mindmap(m)
              [] m.k = "timeline" -> Timeline(m) [] m.k = "journey" -> Journey(m) [] m.k = "quadrant" -> Quadrant(m) [] m.k = "git" -> Git(m)
(* several diagrams on one slide *)
RECURSIVE Together(_)
Together(ds) ==
  IF ds = <<>> THEN [items |-> <<>>, links |-> <<>>, of |-> <<>>]
  ELSE LET r == Together(SubSeq(ds, 1, Len(ds) - 1))
           e == Shown(Machine(ds[Len(ds)]))
           k == Len(r.items)
           sh(i) == [e.items[i] EXCEPT !.a = IF e.items[i].c = "message" THEN @ + k ELSE @, !.b = IF e.items[i].c = "message" THEN @ + k ELSE @]
       IN [items |-> r.items \o [i \in DOMAIN e.items |-> sh(i)],
           links |-> r.links \o [i \in DOMAIN e.links |-> [e.links[i] EXCEPT !.a = @ + k, !.b = @ + k]],
           of |-> r.of \o [i \in DOMAIN e.items |-> Len(ds)]]
=============================================================================
