----------------------------- MODULE CompressMC -----------------------------
(* Compression takes parts out one at a time, each with the references to it, in whatever   *)
(* order the implementation looks for them; whichever order it is, the result is consistent  *)
(* and holds everything a kept part uses.  Optional: the parts a presentation may also have. *)
EXTENDS Compress, Sequences, TLC, Json
CONSTANTS Emit
VARIABLES have, o, parts, rels, typed, done
vars == <<have, o, parts, rels, typed, done>>

Kind == [pres |-> "other", slide |-> "other", slide2 |-> "other", layout |-> "other", img |-> "media", limg |-> "media", nimg |-> "media", lone |-> "media",
         notes |-> "notes", comment |-> "comments", authors |-> "comments", core |-> "props", custom |-> "props", xml |-> "other"]
Always == {"pres", "slide", "slide2", "layout", "img", "core"}
Optional == {"limg", "nimg", "lone", "notes", "comment", "custom", "xml"}
With(h) == Always \cup h \cup (IF "comment" \in h THEN {"authors"} ELSE {})
AllRels == {<<"root", "pres">>, <<"root", "core">>, <<"root", "custom">>, <<"pres", "slide">>, <<"pres", "slide2">>, <<"pres", "authors">>, <<"pres", "xml">>, <<"slide", "layout">>, <<"slide2", "layout">>,
            <<"slide", "img">>, <<"slide2", "img">>, <<"layout", "limg">>, <<"slide", "notes">>, <<"notes", "slide">>, <<"notes", "nimg">>, <<"slide2", "comment">>}
Rel(x) == [src |-> x[1], tg |-> x[2], ext |-> FALSE]
RelsOfHave(h) == {Rel(x) : x \in {y \in AllRels : y[1] \in With(h) \cup {"root"} /\ y[2] \in With(h)}}

Init == /\ have \in SUBSET Optional
        /\ o \in [media : BOOLEAN, props : BOOLEAN, notes : BOOLEAN, comments : BOOLEAN, xml : BOOLEAN]
        /\ parts = With(have) /\ rels = RelsOfHave(have) /\ typed = With(have) /\ done = FALSE
(* media counts as idle when nothing uses it now *)
Due == Asked(parts, Kind, o) \cup (IF o.media THEN Idle(parts, Kind, rels) ELSE {})
Take(n) == /\ parts' = parts \ {n} /\ rels' = Left(rels, {n}) /\ typed' = typed \ {n} /\ UNCHANGED <<have, o, done>>
(* the implementation may look for idle media before it takes out notes *)
Finish == ~done /\ MustGo(With(have), Kind, RelsOfHave(have), o) \cap parts = {} /\ done' = TRUE /\ UNCHANGED <<have, o, parts, rels, typed>>
Next == (~done /\ \E n \in Due : Take(n)) \/ Finish
Spec == Init /\ [][Next]_vars

P0 == With(have)
R0 == RelsOfHave(have)
Consistent == \A r \in rels : r.src \in parts \cup {"root"} /\ r.tg \in parts
Types == typed = parts
Within == (P0 \ parts) \subseteq MayGo(P0, Kind, R0, o) /\ (done => MustGo(P0, Kind, R0, o) \cap parts = {})
RefsLeft == rels = Left(R0, P0 \ parts)
KeptUses == \A r \in R0 : (r.src \in parts \cup {"root"} /\ r.tg \notin parts) => r.tg \in Asked(P0, Kind, o)
(* doing it once more may only take out media that became idle *)
Again == done => Due \subseteq (MayGo(P0, Kind, R0, o) \ MustGo(P0, Kind, R0, o))
Emitted == (Emit /\ parts = P0 /\ ~done) => PrintT("@@" \o ToJson([have |-> have, o |-> o]))
=============================================================================
