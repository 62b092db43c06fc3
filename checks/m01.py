"""Documents of the model and random ones, rendered as Markdown text, parsed, compared block by block."""
from lib import vlib, mdgen
from checks import deckcommon as dc
tok = vlib.tok


def observe(r):
    o = {"panic": "process"} if "fatal" in r else r["res"]
    ob = {"panic": "panic" in o, "err": "err" in o}
    if "slides" in o:
        ob["slides"] = [{"title": tok(x["title"]), "content": [tok(c.lstrip(" ")) for c in x["content"]],
                         "body": [{"t": tok(b["t"]), "lvl": b["lvl"], "num": b["num"]} for b in x["body"]],
                         "tables": [[[tok(c) for c in r] for r in t] for t in x["tables"]],
                         "codes": [{"lang": tok(c["lang"]), "c": tok(c["c"])} for c in x["codes"]],
                         "notes": [tok(n) for n in (x["notes"] or "").split("\n") if n], "labels": [tok(t) for t in x["labels"]], "pics": x["pics"]} for x in o["slides"]]
    return ob


def run(chk):
    q = chk.quick
    chk.assumptions += ["raw HTML blocks and inline tags contribute no text of their own", "tables inside quotes are not generated; Mermaid diagrams are judged by M02"]
    em = sorted(chk.model("MarkdownMC", "MarkdownMC.cfg" if q else "MarkdownMC_thorough.cfg", timeout=800), key=str)
    binary = vlib.build_harness("md")
    cases = []
    for k, d in enumerate(chk.rng.sample(em, min(len(em), 2500 if q else 40000))):
        if all(not (a["k"] == b["k"] and a["k"] in ("list", "quote")) for a, b in zip(d, d[1:])):
            cases.append({"id": "m-%d" % k, "doc": mdgen.from_model(d)})
    for k in range(1500 if q else 30000):
        cases.append({"id": "r-%d" % k, "doc": mdgen.doc(chk.rng, chk.rng.choice([1, 2, 3, 4, 6, 9, 14]))})
    for c in cases:
        c["kind"] = "markdown"
        c["src"] = mdgen.markdown(c["doc"], chk.rng)
    for b in dc.batches(cases, 8000):
        res = vlib.exec_cases(binary, [{"id": c["id"], "kind": "markdown", "src": c["src"]} for c in b], chk.scratch)
        lines = []
        for c in b:
            d = [mdgen.export(x) for x in c["doc"]]
            lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "doc": d}, "obs": {}})
            lines.append({"case": c["id"], "i": 1, "op": {"name": "parse"}, "obs": observe(res[c["id"]])})
        chk.judge("MarkdownTrace", "MarkdownTrace.cfg", lines)
    return chk.finish({c["id"]: {"src": c["src"], "doc": c["doc"]} for c in cases})
