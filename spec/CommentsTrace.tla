---------------------------- MODULE CommentsTrace ----------------------------
EXTENDS Comments, TraceLib
CStart(e) == [authors |-> <<>>, slides |-> [k \in 1..e.op.slides |-> <<>>]]
Bad(cond, name) == IF cond THEN {} ELSE {name}
CJudge(e, s) ==
  LET o == e.obs
      op == e.op
  IN
  IF o.panic THEN [st |-> s, bad |-> {"no-panic"}, exp |-> ""]
  ELSE
  LET k == op.slide + 1
      got == IF op.name \in {"auto", "explicit"} /\ Len(o.slides[k].list) > 0 THEN Last(o.slides[k].list) ELSE [idx |-> "?", date |-> "?"]
      c == [author |-> op.author, text |-> op.text, x |-> op.x, y |-> op.y,
            idx |-> IF op.name = "auto" THEN got.idx ELSE op.idx,
            date |-> IF op.name = "auto" THEN got.date ELSE op.date]
      n == CASE op.name = "author" -> AuthorStep(s, op.who, op.ini, o.ret)
             [] op.name \in {"auto", "explicit"} -> CommentStep(s, k, c)
             [] OTHER -> s
      byid(i) == LET m == {j \in 1..Len(n.authors) : n.authors[j].id = ToString(i)} IN
                 IF m = {} THEN "-none-" ELSE n.authors[CHOOSE j \in m : TRUE].name
      noidx(q) == q
  IN [st |-> IF op.probe THEN s ELSE n, exp |-> <<n>>,
      bad |-> Bad(op.name = "author" => AuthorOk(s, op.who, o.ret), "author-identifier")
        \cup Bad(o.authors = n.authors, "authors-listed")
        \cup Bad(o.n = Len(n.authors) /\ o.empty = (n.authors = <<>>), "author-count")
        \cup Bad(\A i \in 0..7 : o.by[i + 1] = byid(i), "author-by-id")
        \cup Bad(o.awf, "author-list-well-formed")
        \cup Bad(o.axml = n.authors, "author-list-content")
        \cup Bad(op.name = "auto" => c.idx \notin UsedIdx(s, k), "comment-index-distinct")
        \cup Bad(\A j \in 1..Len(n.slides) : o.slides[j].list = n.slides[j], "comments-listed")
        \cup Bad(\A j \in 1..Len(n.slides) : o.slides[j].len = Len(n.slides[j]) /\ o.slides[j].empty = (n.slides[j] = <<>>), "comment-count")
        \cup Bad(\A j \in 1..Len(n.slides) : o.slides[j].wf, "comment-part-well-formed")
        \cup Bad(\A j \in 1..Len(n.slides) : o.slides[j].xml = n.slides[j], "comment-part-content")]
=============================================================================
