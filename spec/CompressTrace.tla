---------------------------- MODULE CompressTrace ----------------------------
(* Judges compressed and analysed packages.  The state is the package that went in.          *)
EXTENDS TraceLib, Package, Compress

KStart(e) == [p |-> e.op.pkg]
Ok(cond, name) == IF cond THEN {} ELSE {name}
KindOf(p) == [n \in Rng(p.names) |-> (CHOOSE x \in Rng(p.kinds) : x.n = n).k]
Pairs(s) == {<<x[1], x[2]>> : x \in Rng(s)}
Hash(ps, n) == {x[2] : x \in {y \in ps : y[1] = n}}
RelPartsOf(p, S) == {x.r : x \in {y \in Rng(p.rp) : y.s \in S}}

Content(p, q, o) ==
  LET nn == Rng(p.names)
      kk == KindOf(p)
      rs == Rng(p.rels)
      gone == nn \ Rng(q.names)
      must == MustGo(nn, kk, rs, o)
      may == MayGo(nn, kk, rs, o)
      kept == nn \cap Rng(q.names)
      listing == Rng(p.relparts) \cup {"[Content_Types].xml"}
      cp == Pairs(p.canon)   cq == Pairs(q.canon)
      sp == Pairs(p.sha)   sq == Pairs(q.sha)
      xml == {x[1] : x \in cp}
  IN   Ok(Rng(q.names) \subseteq nn, "part-made-up")
  \cup Ok(must \subseteq gone, "part-not-removed")
  \cup Ok(RelPartsOf(p, must) \subseteq gone, "relationships-of-removed-part")
  \cup Ok(gone \subseteq may \cup RelPartsOf(p, may \cap gone), "part-removed")
  \cup Ok(q.sldIds = p.sldIds, "slides")
  \cup Ok(\A n \in (kept \cap xml) \ listing : Hash(cp, n) = Hash(cq, n), "text-changed")
  \cup Ok(\A n \in kept \ (xml \cup listing) : Hash(sp, n) = Hash(sq, n), "bytes-changed")
  \cup Ok(o.xml \/ \A n \in kept \ listing : Hash(sp, n) = Hash(sq, n), "part-changed")
  \cup Ok(Rng(q.rels) = Left(rs, gone), "references")
  \cup Ok(Rng(q.overrides) = {x \in Rng(p.overrides) : x[1] \notin gone} /\ Rng(q.defaults) = Rng(p.defaults), "content-types")
  \cup Ok(Closed(q) \subseteq Closed(p), "consistent")

Numbers(p, q, o, r) ==
  LET kk == KindOf(p)
      gone == {n \in Rng(p.names) \ Rng(q.names) : kk[n] = "media"}
      d == 1000 * (r.orig - r.size) - r.permille * r.orig
  IN   Ok(r.orig = p.bytes /\ r.size = q.bytes, "sizes")
  \cup Ok(d <= r.orig /\ d >= 0 - r.orig, "reduction")
  \cup Ok(r.media = Cardinality(gone), "media-count")
  \cup Ok(r.achieved = (o.target = 0 \/ r.size <= o.target), "target")

Compressed(e, s) ==
  LET o == e.op.o   b == e.obs IN
       Content(s.p, b.mem, o) \cup Numbers(s.p, b.mem, o, b.memr)
  \cup Ok(b.source = s.p.filesha, "source-changed")
  \cup Ok(b.file = b.mem.sha, "file-differs-from-memory")
  \cup Numbers(s.p, [names |-> b.mem.names, bytes |-> b.filebytes], o, b.filer)
  \cup Ok(\A x \in Rng(b.par) : x = "same", "concurrent-call")
  \cup Ok({x \in Rng(b.left) : TRUE} = {}, "files-left-behind")

Analysis(p, a) ==
  LET kk == KindOf(p) IN
       Ok(a.total = p.bytes, "analysis-total")
  \cup Ok(a.images + a.xml + a.other = p.unpacked, "analysis-sizes")
  \cup Ok(a.slides = Cardinality({x \in Rng(p.parts) : x.ct = CTP \o "slide+xml"}), "analysis-slides")
  \cup Ok(a.nimages + a.nmedia = Cardinality(Media(Rng(p.names), kk)), "analysis-media")
  \cup Ok(a.xml = p.xmlbytes /\ a.images = p.imagebytes, "analysis-kinds")

KJudge(e, s) ==
  LET c == IF e.obs.panic THEN {"panic"} ELSE IF e.obs.err THEN {"error"}
           ELSE IF e.op.name = "analyze" THEN Analysis(s.p, e.obs.a) ELSE Compressed(e, s)
  IN [st |-> s, bad |-> {"K01:" \o x : x \in c}, exp |-> [name |-> e.op.name]]
=============================================================================
