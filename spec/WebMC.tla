------------------------------- MODULE WebMC -------------------------------
(* Pages of a few blocks, taken block by block under every setting of the options.           *)
EXTENDS Web, TLC, Json
CONSTANTS MaxLen, Kinds, MaxBs
VARIABLES page, o, k, s

B(kd, i) == CASE kd = "table" -> [k |-> kd, t |-> "", len |-> 0, r |-> i, c |-> 2]
              [] kd = "img" -> [k |-> kd, t |-> "alt" \o Dec(i), len |-> 4, src |-> "link"]
              [] kd = "long" -> [k |-> "p", t |-> "long" \o Dec(i), len |-> 250]
              [] kd = "shortp" -> [k |-> "p", t |-> "s", len |-> 1]
              [] kd = "skip" -> [k |-> kd, blocks |-> <<[k |-> "p", t |-> "no content", len |-> 10]>>]
              [] kd = "box" -> [k |-> kd, blocks |-> <<[k |-> "li", t |-> "in" \o Dec(i), len |-> 3], [k |-> "h", t |-> "hd" \o Dec(i), len |-> 3]>>]
              [] OTHER -> [k |-> kd, t |-> kd \o " text " \o Dec(i), len |-> 15]
RECURSIVE Pages(_)
Pages(n) == IF n = 0 THEN {<<>>} ELSE {Append(p, B(x, n)) : p \in Pages(n - 1), x \in Kinds}
Opts == {[title |-> <<>>, source |-> TRUE, maxs |-> 50, maxb |-> mb, grouped |-> g, code |-> f, tables |-> f, images |-> f] : mb \in MaxBs, g \in BOOLEAN, f \in BOOLEAN}
        \cup {[title |-> <<"Own">>, source |-> FALSE, maxs |-> ms, maxb |-> 1, grouped |-> TRUE, code |-> TRUE, tables |-> TRUE, images |-> TRUE] : ms \in {0, 1, 2}}
P(bs) == [url |-> "u", title |-> <<>>, h1 |-> <<>>, og |-> <<>>, desc |-> <<>>, ogdesc |-> <<>>, blocks |-> bs, special |-> <<>>, big |-> TRUE]
Todo == IF o.grouped THEN Grouped(Content(page, o)) ELSE Content(page, o)

Init == /\ \E n \in 0..MaxLen : page \in Pages(n)
        /\ o \in Opts /\ k = 0 /\ s = Begin
Next == /\ k < Len(Todo) /\ k' = k + 1 /\ s' = Take(s, Todo[k'], o.maxb) /\ UNCHANGED <<page, o>>
Spec == Init /\ [][Next]_<<page, o, k, s>>

All == Shut(s)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q).b \o Flat(Tail(q))
Bullets(n) == LET q == SelectSeq(SubSeq(Todo, 1, n), LAMBDA b : b.k # "h") IN [i \in DOMAIN q |-> Shown(q[i])]
\* every block of content is shown, once and in order
NothingLost == Flat(All) = Bullets(k)
\* no slide is empty or has more bullets than asked for
Sized == \A i \in DOMAIN All : Len(All[i].b) \in 1..o.maxb
\* a slide is as full as its heading allows
Full == \A i \in DOMAIN All : i > 1 /\ All[i].t = s.title \o " (cont.)" => Len(All[i - 1].b) = o.maxb
\* each bullet stands under the heading before it
Under == LET hs == {i \in 1..k : Todo[i].k = "h"} IN
         s.title = (IF hs = {} THEN (IF k = 0 THEN "" ELSE IF Todo[1].k = "li" THEN "Key Points" ELSE "Overview") ELSE Todo[CHOOSE i \in hs : \A j \in hs : j <= i].t)
Agrees == k = Len(Todo) => Slides(P(page), o) = Cut(<<Front(P(page), o)>> \o All, o.maxs)
Limited == k = 0 => Len(Slides(P(page), o)) <= o.maxs
\* grouping moves only what comes before the first heading
Groups == k = 0 => Len(Grouped(Content(page, o))) = Len(Content(page, o)) /\ SelectSeq(Grouped(Content(page, o)), LAMBDA b : b.k = "h") = SelectSeq(Content(page, o), LAMBDA b : b.k = "h")
Emitted == k = 0 => PrintT("@@" \o ToJson([blocks |-> page, o |-> o]))
=============================================================================
