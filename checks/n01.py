from lib import vlib
from lib.vlib import tok
from checks.common import run_ops, group_probes, rtext, xml_doc, near

P = "{http://schemas.openxmlformats.org/presentationml/2006/main}"


def run(chk):
    em = chk.model("CommentsMC", "CommentsMC.cfg" if chk.quick else "CommentsMC_thorough.cfg")
    cases = group_probes(em, lambda e: {"kind": "comments", "slides": 2})
    for c in cases:
        for i, o in enumerate(c["ops"]):
            if o["name"] == "author":
                o["ini"] = o["who"][:1]
            else:
                o.update(text="t%d" % i, x=i, y=i + 1, date="2024-01-0%dT00:00:00.000" % (1 + i % 9))
    rng = chk.rng
    for n in range(120 if chk.quick else 4000):
        slides = rng.randint(1, 3)
        people = [rtext(rng) for _ in range(rng.randint(1, 5))]
        people += [near(rng, p) for p in people if rng.random() < .6]
        ops = []
        for _ in range(rng.randint(2, 18)):
            z = rng.random()
            if z < .35:
                ops.append({"name": "author", "who": rng.choice(people), "ini": rtext(rng, 1)})
            else:
                k = rng.randrange(slides)
                o = {"name": "auto", "slide": k, "author": rng.choice([0, 0, 1, 2, 7]), "text": rtext(rng) if rng.random() < .95 else "",
                     "x": rng.choice([0, 1, 914400, 4294967295]), "y": rng.choice([0, 5, 6858000])}
                if z < .6:
                    o["name"] = "explicit"
                    o["idx"] = rng.choice([1, 2, 3, 5, 9, 40])
                    o["date"] = rng.choice(["2024-02-29T23:59:59.000", "2025-01-01T00:00:00.000", rtext(rng)])
                ops.append(o)
        cases.append({"id": "rnd-%d" % n, "kind": "comments", "slides": slides, "ops": ops})

    def conv(o, c):
        return dict(name=o["name"], who=tok(o.get("who", "")), ini=tok(o.get("ini", "")), slide=o.get("slide", 0),
                    author=str(o.get("author", 0)), text=tok(o.get("text", "")), x=str(o.get("x", 0)), y=str(o.get("y", 0)),
                    idx=str(o.get("idx", 0)), date=tok(o.get("date", "")))

    def obs(ob, o, c):
        root = xml_doc(ob["axml"])
        axml = []
        if root is not None:
            axml = [{"id": a.get("id", "?"), "name": tok(a.get("name", "?")), "ini": tok(a.get("initials", "?"))} for a in root.iter(P + "cmAuthor")]
        slides = []
        for s in ob["slides"]:
            r = xml_doc(s["xml"])
            x = []
            if r is not None:
                for m in r.iter(P + "cm"):
                    pos, t = m.find(P + "pos"), m.find(P + "text")
                    x.append({"author": m.get("authorId", "?"), "date": tok(m.get("dt", "?")), "idx": m.get("idx", "?"),
                              "x": pos.get("x", "?") if pos is not None else "?", "y": pos.get("y", "?") if pos is not None else "?",
                              "text": tok((t.text or "") if t is not None else "?")})
            slides.append({"list": [dict(q, text=tok(q["text"]), date=tok(q["date"])) for q in s["list"]], "len": s["len"], "empty": s["empty"],
                           "wf": r is not None, "xml": x})
        return {"ret": ob["ret"], "authors": [dict(id=a["id"], name=tok(a["name"]), ini=tok(a["ini"])) for a in ob["authors"]],
                "by": [tok(b) for b in ob["by"]], "n": ob["n"], "empty": ob["empty"], "awf": root is not None, "axml": axml, "slides": slides}
    chk.assumptions += ["up to 18 operations, 5 author names, 3 slides; texts without control characters"]
    return run_ops(chk, cases, lambda c: {"slides": c["slides"]}, conv, obs, "CommentsTrace", "CommentsTrace.cfg")
