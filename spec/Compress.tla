------------------------------ MODULE Compress ------------------------------
(* What compressing a package may take out of it.  N: part names, K: part -> kind, R: the     *)
(* relationships (records src, tg, ext), o: the options, RelsOf(n): the part that holds the    *)
(* relationships of n (or n itself when it has none).                                          *)
EXTENDS Naturals, FiniteSets

Asked(N, K, o) == {n \in N : (o.props /\ K[n] = "props") \/ (o.notes /\ K[n] = "notes") \/ (o.comments /\ K[n] = "comments")}
Targets(R) == {r.tg : r \in {x \in R : ~x.ext}}
Media(N, K) == {n \in N : K[n] = "media"}
Idle(N, K, R) == Media(N, K) \ Targets(R)

(* what must go: what the options name, and media that nothing uses *)
MustGo(N, K, R, o) == Asked(N, K, o) \cup (IF o.media THEN Idle(N, K, R) ELSE {})
(* what may go as well: media that only parts on their way out use *)
MayGo(N, K, R, o) == LET a == Asked(N, K, o) IN
  a \cup (IF o.media THEN Idle(N, K, {r \in R : r.src \notin a}) ELSE {})
(* references left once the parts in G are gone *)
Left(R, G) == {r \in R : r.src \notin G /\ (r.ext \/ r.tg \notin G)}
=============================================================================
