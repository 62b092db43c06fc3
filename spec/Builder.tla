------------------------------- MODULE Builder -------------------------------
(* A01: two presentations under construction, x and y, and one file.                *)
(* A presentation is its title, its slides in order and its settings; the file       *)
(* holds what was last saved.                                                        *)
EXTENDS Naturals, Sequences
CONSTANTS NoSettings,           \* the settings of a presentation that was given none
          WithTheme(_, _),      \* settings with only the theme replaced
          Loaded(_)             \* what a slide is after saving and reading it back

Fresh(t) == [title |-> t, slides |-> <<>>, set |-> NoSettings]
Init0 == [x |-> Fresh(""), y |-> Fresh(""), file |-> <<>>]
Builds(p) == p.slides # <<>>

Effect(s, o) ==
  LET p == s[o.who] IN
  CASE o.name = "new"    -> [s EXCEPT ![o.who] = Fresh(o.title)]
    [] o.name = "title"  -> [s EXCEPT ![o.who].title = o.title]
    [] o.name = "slide"  -> [s EXCEPT ![o.who].slides = Append(@, o.slide)]
    [] o.name = "join"   -> [s EXCEPT ![o.who].slides = @ \o s[IF o.who = "x" THEN "y" ELSE "x"].slides]
    [] o.name = "theme"  -> [s EXCEPT ![o.who].set = WithTheme(@, o.set)]
    [] o.name = "settings" -> [s EXCEPT ![o.who].set = o.set]
    [] o.name = "save"   -> IF Builds(p) THEN [s EXCEPT !.file = <<p>>] ELSE s
    [] o.name = "load"   -> IF s.file = <<>> THEN s
                            ELSE [s EXCEPT ![o.who] = [title |-> s.file[1].title, slides |-> [i \in DOMAIN s.file[1].slides |-> Loaded(s.file[1].slides[i])], set |-> NoSettings]]
    [] OTHER -> s     \* build, bytes, elsewhere (a save that cannot write)
Fails(s, o) ==
  CASE o.name \in {"save", "build", "bytes"} -> ~Builds(s[o.who])
    [] o.name = "elsewhere" -> TRUE
    [] o.name = "load" -> s.file = <<>>
    [] OTHER -> FALSE
=============================================================================
