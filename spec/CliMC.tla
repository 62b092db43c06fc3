------------------------------- MODULE CliMC -------------------------------
EXTENDS Cli, TLC, Json
CONSTANTS MaxLen, Wide
VARIABLES s, hist

N(d, st, e) == [d |-> d, s |-> st, e |-> e]
Sl(t, b, tab, o) == [Slide(t, b) EXCEPT !.tab = tab, !.o = o]
Doc == <<Sl("One", <<"a", "b", "c">>, <<>>, <<"let x">>), Sl("Two", <<>>, << <<"h", "k">>, <<"1", "2">> >>, <<>>), Sl("Three", <<"z">>, <<>>, <<>>)>>
Files == << [n |-> N("", "a", "md"), v |-> [k |-> "md", slides |-> Doc]],
            [n |-> N("", "b", "html"), v |-> [k |-> "html", slides |-> Doc]],
            [n |-> N("d", "notes.v1", "markdown"), v |-> [k |-> "md", slides |-> <<Sl("Four", <<"p", "q">>, <<>>, <<>>)>>]],
            [n |-> N("", "plain", ""), v |-> [k |-> "md", slides |-> Tail(Doc)]],
            [n |-> N("", "own", "pptx"), v |-> [k |-> "md", slides |-> <<Doc[3]>>]],
            [n |-> N("d", "b", "htm"), v |-> [k |-> "html", slides |-> Doc \o <<Sl("Five", <<"s", "t">>, <<>>, <<>>)>>]],
            [n |-> N("", "e", "md"), v |-> [k |-> "md", slides |-> <<>>]],
            [n |-> N("d", "p", "pptx"), v |-> Deck("P", <<Sl("S", <<"x">>, <<>>, <<>>), Sl("T", <<>>, <<>>, <<>>)>>)],
            [n |-> N("", "j", "pptx"), v |-> [k |-> "junk", x |-> "text"]] >>
Start == [fs |-> Files, dirs |-> {"", "d"}]

None == [name |-> "none", in |-> <<>>, out |-> <<>>, title |-> <<>>, tool |-> "works"]
C(name, in, out) == [None EXCEPT !.name = name, !.in = in, !.out = out]
Decks == {N("", "a", "pptx"), N("", "b", "pptx"), N("", "c", "pptx"), N("d", "p", "pptx")}
Outs == {N("", "c", "pptx"), N("d", "p", "pptx"), N("new", "q", "pptx"), N("a.md", "q", "pptx"), N("", "d", "")}
Opts(c, f) == [x \in DOMAIN c \cup DOMAIN f |-> IF x \in DOMAIN f THEN f[x] ELSE c[x]]
H(c, ms, mb, tb, cd) == Opts(c, [maxs |-> ms, maxb |-> mb, tables |-> tb, code |-> cd])
Simple ==
       {Opts(C("create", tp, <<o>>), [n |-> k]) : o \in Outs, k \in {0, 2}, tp \in {<<>>, <<N("d", "p", "pptx")>>, <<N("", "j", "pptx")>>}}
  \cup {[C("md2ppt", <<i>>, o) EXCEPT !.title = t] : i \in {N("", "a", "md"), N("", "e", "md"), N("", "j", "pptx"), N("", "m", "md"), N("", "c", "pptx")}, o \in {<<>>, <<N("", "c", "pptx")>>, <<N("new", "q", "pptx")>>, <<N("", "d", "")>>}, t \in {<<>>, <<"My">>}}
  \cup {H(C("html2ppt", <<N("", "b", "html")>>, o), q[1], q[2], q[3], q[4]) : o \in {<<>>, <<N("", "c", "pptx")>>, <<N("", "b", "html")>>}, q \in {<<50, 10, TRUE, TRUE>>, <<2, 1, FALSE, FALSE>>, <<0, 10, TRUE, TRUE>>}}
  \cup {C("merge", q, <<o>>) : o \in {N("", "c", "pptx"), N("d", "p", "pptx"), N("new", "q", "pptx")}, q \in {<<N("d", "p", "pptx")>>, <<N("d", "p", "pptx"), N("", "a", "pptx")>>, <<N("", "c", "pptx"), N("d", "p", "pptx"), N("", "c", "pptx")>>, <<N("d", "p", "pptx"), N("", "j", "pptx")>>}}
  \cup {Opts([C("export", <<i>>, <<o>>) EXCEPT !.tool = t], [format |-> f]) : i \in {N("d", "p", "pptx"), N("", "c", "pptx"), N("", "j", "pptx")}, o \in {N("", "x", "pdf"), N("d", "x", "HTML"), N("", "a", "md")}, f \in {"", "html", "png"}, t \in {"works", "none"}}
  \cup {[C("pdf2ppt", <<i>>, o) EXCEPT !.tool = t] : i \in {N("", "x", "pdf"), N("", "a", "md")}, o \in {<<>>, <<N("", "c", "pptx")>>, <<N("new", "q", "pptx")>>}, t \in {"works", "none", "fails", "garbles"}}
  \cup {Opts(C("validate", <<i>>, <<>>), [json |-> j]) : i \in {N("", "c", "pptx"), N("d", "p", "pptx"), N("", "j", "pptx")}, j \in BOOLEAN}
  \cup {C("info", <<i>>, <<>>) : i \in {N("", "c", "pptx"), N("d", "p", "pptx"), N("", "d", "")}}

(* for random behaviours: more names, documents and options *)
Ns == {N("", "c", "pptx"), N("d", "p", "pptx"), N("new", "q", "pptx"), N("", "my file", "pptx"), N("d", "a.b", "PPTX"), N("", "w", "")}
Bad == {N("", "j", "pptx"), N("", "none", "pptx"), N("", "d", "")}
Exports == {N("", "x", "pdf"), N("d", "x", "PDF"), N("", "x.y", "html"), N("", "X", "HTML"), N("", "pics", "png"), N("d", "pics", "PNG"), N("", "z", "txt"), N("", "j", "pptx"), N("d", "p", "pptx")}
Mds == {N("", "a", "md"), N("d", "notes.v1", "markdown"), N("", "plain", ""), N("", "own", "pptx"), N("", "e", "md")}
Htmls == {N("", "b", "html"), N("d", "b", "htm")}
Many == Simple
  \cup {[C("md2ppt", <<i>>, o) EXCEPT !.title = t] : i \in Mds \cup Bad, o \in {<<>>} \cup {<<n>> : n \in Ns}, t \in {<<>>, <<"My">>, <<"">>}}
  \cup {[H(C("html2ppt", <<i>>, o), ms, mb, tb, cd) EXCEPT !.title = t] : i \in Htmls, o \in {<<>>} \cup {<<n>> : n \in Ns}, ms \in {1, 2, 50}, mb \in {0, 2, 10}, tb \in BOOLEAN, cd \in BOOLEAN, t \in {<<>>, <<"My">>}}
  \cup {C("merge", q, <<o>>) : o \in Ns \cup {N("", "d", "")}, q \in UNION {[1..k -> Ns] : k \in 1..3} \cup {<<x, y>> : x \in Ns, y \in Bad}}
  \cup {Opts([C("export", <<i>>, <<o>>) EXCEPT !.tool = t], [format |-> f]) : i \in Ns \cup Bad, o \in Exports, f \in {"", "", "html", "png", "pdf"}, t \in {"works", "works", "none", "fails"}}
  \cup {[C("pdf2ppt", <<i>>, o) EXCEPT !.tool = t] : i \in {N("", "x", "pdf"), N("d", "x", "PDF"), N("", "z", "txt")} \cup Bad, o \in {<<>>} \cup {<<n>> : n \in Ns}, t \in {"works", "none", "fails", "garbles"}}
  \cup {Opts(C("validate", <<i>>, <<>>), [json |-> j]) : i \in Ns \cup Exports \cup Bad, j \in BOOLEAN}
  \cup {C("info", <<i>>, <<>>) : i \in Ns \cup Exports \cup Bad}
Commands == IF Wide THEN Many ELSE Simple
(* left out: a template with pictures; HTML read as Markdown and the like, which is text after all *)
Sensible(c) ==
  /\ (c.name = "create" /\ c.in # <<>>) => (Kind(s.fs, c.in[1]) = "deck" => \A i \in DOMAIN Val(s.fs, c.in[1]).slides : Val(s.fs, c.in[1]).slides[i].pics = <<>>)
  /\ c.name = "md2ppt" => Kind(s.fs, c.in[1]) \in {"md", "deck", "junk", "none"}
  /\ c.name = "html2ppt" => Kind(s.fs, c.in[1]) \in {"html", "deck", "junk", "none"}
(* random behaviours choose what kind of command first, and prefer those that succeed *)
Kinds == {"create", "md2ppt", "html2ppt", "merge", "export", "pdf2ppt", "validate", "info"}
Of(k) == {c \in Commands : c.name = k}

Init == s = Start /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E c \in Commands : /\ Sensible(c) /\ s' = After(s, c) /\ hist' = Append(hist, c)
Rand == /\ Len(hist) < MaxLen
        /\ \E k \in {RandomElement(Kinds)} :
           \E tries \in {{RandomElement(Of(k)), RandomElement(Of(k)), RandomElement(Of(k)), RandomElement(Of(k))}} :
             LET fair == {c \in tries : Sensible(c)}
                 good == {c \in fair : Outcome(s, c).ok}
             IN IF fair = {} THEN UNCHANGED <<s, hist>>
                ELSE \E c \in {RandomElement(IF good # {} THEN good ELSE fair)} : s' = After(s, c) /\ hist' = Append(hist, c)
RandSpec == Init /\ [][Rand]_<<s, hist>>
Spec == Init /\ [][Next]_<<s, hist>>

FsView == s
Touched(c) == {c.out[i] : i \in DOMAIN c.out} \cup (IF c.name \in {"md2ppt", "html2ppt", "pdf2ppt"} THEN {Out(c)} ELSE {})
OnlyOutputs == [][LET c == hist'[Len(hist')] IN
   /\ \A n \in Names(s.fs) : n \in Names(s'.fs) /\ (Val(s'.fs, n) # Val(s.fs, n) => n \in Touched(c))
   /\ \A n \in Names(s'.fs) \ Names(s.fs) : n \in Touched(c) \/ (c.name = "export" /\ n.d = Path(Out(c)))
   /\ (~Outcome(s, c).ok => s' = s)
   /\ (c.name \in {"validate", "info"} => s' = s)]_<<s, hist>>
\* what one command writes, the others accept
Chained == \A i \in DOMAIN s.fs : LET f == s.fs[i] IN
   f.v.k = "deck" /\ f.v.slides # <<>> =>
                     /\ Outcome(s, Opts(C("validate", <<f.n>>, <<>>), [json |-> TRUE])).ok
                     /\ Outcome(s, C("merge", <<f.n, f.n>>, <<N("", "zz", "pptx")>>)).ok
                     /\ Len(Val(After(s, C("merge", <<f.n, f.n>>, <<N("", "zz", "pptx")>>)).fs, N("", "zz", "pptx")).slides) = 2 * Len(f.v.slides)
Emitted == Len(hist) = MaxLen => PrintT("@@" \o ToJson([cmds |-> hist, fs |-> IF TLCGet("level") = 1 THEN <<>> ELSE Files]))
=============================================================================
