------------------------------ MODULE BuilderMC ------------------------------
(* Every short history of two builders and a file.                                  *)
EXTENDS Builder, TLC, Json, FiniteSets
CONSTANTS MaxOps, Emit
VARIABLES s, ops
vars == <<s, ops>>
NoneMC == [theme |-> "", rest |-> ""]
WithThemeMC(set, t) == [set EXCEPT !.theme = t.theme]
LoadedMC(sl) == sl
O(n, w) == [name |-> n, who |-> w, title |-> "", slide |-> "", set |-> NoneMC]
OpSet ==
  LET W == {"x", "y"} k == ToString(Len(ops)) IN
       {O(n, w) : n \in {"save", "load", "build"}, w \in W}
  \cup {O(n, "x") : n \in {"join", "bytes", "elsewhere"}}
  \cup {O("join", "y")}
  \cup {[O("title", "x") EXCEPT !.title = "t" \o k]} \cup {[O("new", "x") EXCEPT !.title = "n" \o k]}
  \cup {[O("slide", w) EXCEPT !.slide = "s" \o k] : w \in W}
  \cup {[O("theme", "x") EXCEPT !.set = [theme |-> "T" \o k, rest |-> ""]]}
  \cup {[O("settings", "x") EXCEPT !.set = [theme |-> t, rest |-> r]] : t \in {"", "S" \o k}, r \in {"", "R" \o k}}
Init == s = Init0 /\ ops = <<>>
Next == Len(ops) < MaxOps /\ \E o \in OpSet : (o.name = "new" => ops # <<>>) /\ s' = Effect(s, o) /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_vars

Rg(q) == {q[i] : i \in DOMAIN q}
(* the last title and settings given to x since it was last made or loaded *)
Since(names) == {i \in DOMAIN ops : ops[i].who = "x" /\ ops[i].name \in names}
Max(S) == CHOOSE m \in S : \A q \in S : q <= m
MadeAt == IF Since({"new"}) = {} THEN 0 ELSE Max(Since({"new"}))
NoLoads == Since({"load"}) = {}
TitleIsLast ==
  NoLoads => s.x.title = (IF Since({"title", "new"}) = {} THEN "" ELSE ops[Max(Since({"title", "new"}))].title)
SettingsAreLast ==
  (NoLoads /\ {i \in Since({"theme", "settings"}) : i > MadeAt} = {}) => s.x.set = NoneMC
ThemeKeepsRest == [][\A o \in OpSet : (ops' = Append(ops, o) /\ o.name = "theme") => s'[o.who].set.rest = s[o.who].set.rest]_vars
OthersKept == [][\A o \in OpSet : ops' = Append(ops, o) =>
                   (\A w \in {"x", "y"} \ {o.who} : s'[w] = s[w]) /\ (o.name # "save" => s'.file = s.file)]_vars
Counted == (NoLoads /\ ~(\E i \in DOMAIN ops : ops[i].name \in {"join", "new"})) => Len(s.x.slides) = Cardinality(Since({"slide"}))
FileHasSlides == s.file # <<>> => s.file[1].slides # <<>>
(* kept for replay: histories whose end shows something *)
Shows == ops # <<>> /\ ops[Len(ops)].name \in {"build", "bytes", "save", "load", "elsewhere"}
Emitted == (Emit /\ Len(ops) = MaxOps /\ Shows /\ (MaxOps <= 4 \/ {"save", "load", "join"} \subseteq {ops[i].name : i \in DOMAIN ops})) => PrintT("@@" \o ToJson([ops |-> ops]))
=============================================================================
