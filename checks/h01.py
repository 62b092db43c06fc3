"""Documents of the model and random ones, rendered as HTML text, parsed, compared block by block."""
from lib import vlib, htmlgen
from checks import deckcommon as dc
tok = vlib.tok


def flat(s):
    return tok(" ".join(s.split()))


def look(c):
    return [tok(x) for x in c]


def observe(r):
    o = {"panic": "process"} if "fatal" in r else r["res"]
    ob = {"panic": "panic" in o, "err": "err" in o}
    if "slides" in o:
        ob["slides"] = [{"title": flat(x["title"]), "tcol": look(x["tlook"]), "content": [flat(c) for c in x["content"]],
                         "body": [{"t": flat(b["t"]), "col": look(b["look"])} for b in x["body"]],
                         "tables": [[[flat(c) for c in r] for r in t] for t in x["tables"]],
                         "codes": [tok(c["c"]) for c in x["codes"]], "notes": flat(x["notes"] or ""), "pics": x["pics"]} for x in o["slides"]]
    return ob


NESTED = [("nested-list", "<h1>T</h1><ul><li>first<li>outer<ul><li>inner</li></ul></li></ul>",
           [{"k": "h", "n": 1, "t": [{"k": "text", "x": "T", "y": ""}], "col": htmlgen.PLAIN}] +
           [{"k": "p", "t": [{"k": "text", "x": x, "y": ""}], "col": htmlgen.PLAIN} for x in ("first", "outer", "inner")])]


def run(chk):
    q = chk.quick
    chk.assumptions += ["a list inside a list item is only tried on its own (known finding nested-list)", "white space is compared collapsed, outside code",
                        "no pictures are fetched over the network"]
    em = sorted(chk.model("HtmlMC", "HtmlMC.cfg" if q else "HtmlMC_thorough.cfg", timeout=800), key=str)
    binary = vlib.build_harness("md")
    rng, cases = chk.rng, []
    for k, d in enumerate(rng.sample(em, min(len(em), 1700 if q else 30000))):
        cases.append({"id": "m-%d" % k, "doc": htmlgen.from_model(d["doc"]), "o": d["o"]})
    default = {"maxs": 50, "maxb": 10, "code": True, "tables": True, "images": True}
    for k in range(2500 if q else 40000):
        o = dict(default, maxb=1000, maxs=1000) if rng.random() < .5 else default
        if rng.random() < .2:
            o = {"maxs": rng.choice([0, 1, 2, 3, 50]), "maxb": rng.choice([0, 1, 2, 3, 10]), "code": rng.random() < .6, "tables": rng.random() < .6, "images": rng.random() < .6}
        cases.append({"id": "r-%d" % k, "doc": htmlgen.doc(rng, rng.choice([1, 2, 3, 4, 6, 9, 14])), "o": o})
    for c in cases:
        c["src"] = htmlgen.html(c["doc"], rng)
    cases += [{"id": i, "doc": d, "o": default, "src": s} for i, s, d in NESTED]
    for b in dc.batches(cases, 8000):
        res = vlib.exec_cases(binary, [{"id": c["id"], "kind": "html", "src": c["src"], "o": c["o"]} for c in b], chk.scratch)
        lines = []
        for c in b:
            lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "doc": [htmlgen.export(x) for x in c["doc"]], "o": c["o"]}, "obs": {}})
            lines.append({"case": c["id"], "i": 1, "op": {"name": "parse"}, "obs": observe(res[c["id"]])})
        chk.judge("HtmlTrace", "HtmlTrace.cfg", lines)
    return chk.finish({c["id"]: {"src": c["src"], "doc": c["doc"], "o": c["o"]} for c in cases})
