"""Mermaid diagrams of the model and random ones in Markdown, parsed and generated; shapes and connectors judged."""
import re
from lib import vlib, mermgen, project as pj
from checks import deckcommon as dc
tok = vlib.tok
P = pj.P
SHARE = re.compile(r"(.*) \((\d{1,4})\.(\d)%\)$", re.S)


def observe(r):
    if "fatal" in r:
        return {"panic": True, "err": False, "slides": []}
    o = r["res"]
    if "pptx" not in o:
        return {"panic": "panic" in o, "err": "panic" not in o, "slides": []}
    pkg = pj.Pkg(bytes.fromhex(o["pptx"]))
    parts = sorted((n for n in pkg.parts if re.fullmatch(r"ppt/slides/slide\d+\.xml", n)), key=lambda n: int(re.findall(r"\d+", n)[0]))
    slides = []
    for n in parts:
        v = pj.slide_view(pkg, n)
        shapes = []
        for s in v["shapes"]:
            m = SHARE.match("".join(s["lines"]))
            shapes.append({"t": s["lines"], "share": m.group(1) if m else "", "p": int(m.group(2)) * 10 + int(m.group(3)) if m else -1,
                           "prst": s["prst"], "x": s["x"], "y": s["y"], "cx": s["cx"], "cy": s["cy"], "id": s["id"]})
        ids = [pj.num(c.get("id")) for c in pkg.xml[n].iter(P + "cNvPr")]
        cx = [{"st": c["st"], "en": c["en"], "dash": "no" if c["d"] in ("", "solid") else "yes", "arrow": "no" if c["tail"][0] == "none" else "yes"} for c in v["cxns"]]
        slides.append({"shapes": shapes, "cxns": cx, "ids": ids})
    return {"panic": False, "err": False, "slides": slides}


def export(d):
    return {"k": d["k"], "st": [{k: (tok(v) if isinstance(v, str) and k not in ("k",) else [tok(x) if isinstance(x, str) else {a: tok(b) for a, b in x.items()} for x in v] if isinstance(v, list) else v)
                                 for k, v in s.items()} for s in d["st"]]}


def run(chk):
    q = chk.quick
    chk.assumptions += ["subgraphs are not nested and every one is closed", "texts contain no colon, and brackets or arrows only inside quotes"]
    em = sorted(chk.model("MermaidMC", "MermaidMC.cfg" if q else "MermaidMC_thorough.cfg", timeout=800), key=str)
    binary = vlib.build_harness("md")
    cases = []
    for k, d in enumerate(chk.rng.sample(em, min(len(em), 2500 if q else 30000))):
        cases.append({"id": "m-%d" % k, "ds": [d]})
    for k in range(1500 if q else 20000):
        size = lambda: chk.rng.choice([1, 2, 4, 6, 9, 14])
        cases.append({"id": "r-%d" % k, "ds": [mermgen.diagram(chk.rng, size()) for _ in range(chk.rng.choice([1, 1, 1, 2, 2, 3]))]})
    for k in range(6 if q else 40):
        cases.append({"id": "l-%d" % k, "ds": [mermgen.diagram(chk.rng, 40)]})
    for c in cases:
        c["src"] = mermgen.page(chk.rng, c["ds"], c["id"][0] == "r")
    for b in dc.batches(cases, 4000):
        res = vlib.exec_cases(binary, [{"id": c["id"], "kind": "diagrams", "src": c["src"]} for c in b], chk.scratch)
        lines = []
        for c in b:
            lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "ds": [export(d) for d in c["ds"]]}, "obs": {}})
            lines.append({"case": c["id"], "i": 1, "op": {"name": "draw"}, "obs": observe(res[c["id"]])})
        chk.judge("MermaidTrace", "MermaidTrace.cfg", lines)
    return chk.finish({c["id"]: {"src": c["src"], "ds": c["ds"]} for c in cases})
