"""Decks drawn as PDF pages (and rendered as a PDF document), read back by a PDF reader and judged page by page."""
import os
from concurrent.futures import ProcessPoolExecutor
from lib import vlib, deckgen, exportlib, pdflib
from lib.vlib import tok
from checks import deckcommon as dc

CHARS = {"LF": "\n", "CR": "\r", "HIGH": "é", "DASH": "—", "WIDE": "日"}
PLAINB = {"m": "add", "st": {"k": "Bullet", "c": ""}, "lvl": 0, "f": []}


def T(s):
    return tok(pdflib.shown(s))


def rgb(c):
    h = c.strip().lstrip("#")
    return ["%d %d %d" % tuple(int(h[i:i + 2], 16) for i in (0, 2, 4))] if len(h) == 6 else []


def code_lines(s):
    ls = s.replace("\r\n", "\n").split("\n")
    if ls[-1] == "":
        ls.pop()
    return [T(l) for l in ls]


def abstract(s):
    d = {k: s[k] for k in ("tsz", "csz", "tb", "cb", "ti", "ci", "tu")}
    d["layout"] = s["layout"] or "TitleAndContent"
    d["title"] = T(s["title"])
    d["trgb"] = [x for c in s["tc"] for x in rgb(c)]
    d["crgb"] = [x for c in s["cc"] for x in rgb(c)]
    d["b"] = []
    for o in s["b"]:
        f = [dict(deckgen.ab_fmt(x), color=[y for c in x["color"] for y in rgb(c)]) for x in o["f"]]
        d["b"].append({"m": o["m"], "t": T(o["t"]), "st": {"k": o["st"]["k"], "c": T(o["st"].get("c", ""))}, "lvl": min(o["lvl"], 1000), "f": f})
    d["codes"] = [code_lines(c["t"]) for c in s["codes"]]
    return d


def look(o):
    """the observation the specification judges, from what the harness reports"""
    ob = {"panic": "panic" in o, "err": "err" in o, "kept": bool(o.get("kept"))}
    if "file" not in o:
        return ob
    with open(o["file"], "rb") as f:
        pdf = pdflib.Pdf(f.read())
    os.remove(o["file"])
    pages = [pdflib.page(pdf, p) for p in getattr(pdf, "pages", [])]
    i = lambda v, k: int(round(v * k))
    for p in pages:
        p["w"], p["h"] = i(p["w"], 10), i(p["h"], 10)
        p["runs"] = [{"t": tok(pdflib.decode(r)), "face": r["font"], "size": i(r["size"], 100), "x": i(r["x"], 10), "y": i(r["y"], 10), "col": " ".join(str(i(c, 255)) for c in r["col"])} for r in p["runs"]]
    ob.update(faults=sorted(set(pdf.faults)), same=o["same"], pages=pages)
    return ob


def looks(r):
    if "fatal" in r or "panic" in r["res"]:
        return {k: {"panic": True, "err": False} for k in ("drawn", "doc")}
    d = {k: look(r["res"][k]) for k in r["res"]}
    if "pages" in d.get("doc", {}):
        for p in d["doc"]["pages"]:
            p["runs"] = []
    return d


def slide(rng):
    s = deckgen.slide(rng, 1, {"bullets", "style", "codes", "notes"}, None)
    n = rng.choice([0, 1, 2, 3, 6, 12, 14, 16, 30])
    if rng.random() < .4:
        k = rng.choice(deckgen.STYLES)
        s["b"] = [{"m": "raw", "t": deckgen.text(rng), "st": {"k": k, "c": ""}, "lvl": 0 if rng.random() < .8 else rng.choice([1, 2, 9]), "f": []} for _ in range(n)]
    elif n > 6:
        s["b"] = deckgen.bullet_ops(rng, n)
    if rng.random() < .3:
        t = lambda: exportlib.text(rng)
        s["title"], s["b"] = t(), [dict(o, t=t()) for o in s["b"]]
    if rng.random() < .25:
        s["codes"] = [{"t": "\n".join(deckgen.text(rng) for _ in range(rng.choice([0, 1, 3, 10, 40]))), "lang": "", "x": 0, "y": 0, "w": 1, "h": 1} for _ in range(rng.randint(1, 3))]
    for o in s["b"]:
        if o["st"]["k"] == "Custom" and not o["st"]["c"]:
            o["st"]["c"] = "*"
    return s


def run(chk):
    q, rng = chk.quick, chk.rng
    chk.assumptions += ["PDF read by the check's own reader (cross-reference table, objects, literal strings, text operators); texts by the fonts' declared encoding",
                        "the pdfrs document: structure, page orientation and file only, not its texts", "how numbers go on in interrupted or nested lists is left open", "pictures, tables, charts and shapes are not drawn by this exporter"]
    em = sorted(chk.model("PdfMC", "PdfMC.cfg" if q else "PdfMC_thorough.cfg", timeout=800), key=str)
    binary = vlib.build_harness()
    cases = []
    for m in em:
        s = "".join(CHARS.get(c, c) for c in m["t"])
        if m["t"]:
            sl = [dict(deckgen.PLAIN, title=s, b=[dict(PLAINB, t=s), dict(PLAINB, t="z" + s)], codes=[{"t": "k" + s, "lang": "", "x": 0, "y": 0, "w": 1, "h": 1}]), dict(deckgen.PLAIN, title="z", layout="SectionHeader")]
        else:
            sl = [dict(deckgen.PLAIN, title="p%d" % i, b=[dict(PLAINB, t="%d.%d" % (i, j)) for j in range(5 * n)]) for i, n in enumerate(m["d"])]
        cases.append({"slides": sl, "title": s, "doc": []})
    if len(cases) > 600 and q:
        cases = rng.sample(cases, 600)
    cases.append({"slides": [], "title": "none", "doc": []})
    for k in range(500 if q else 8000):
        doc = [{"land": rng.random() < .5, "front": rng.random() < .5, "notes": rng.random() < .5, "images": rng.random() < .5}] if k % 5 == 0 else []
        sl = [slide(rng) for _ in range(rng.choice([1, 1, 2, 3, 7, 12]))]
        cases.append({"slides": sl, "title": deckgen.text(rng), "doc": doc})
    for k, c in enumerate(cases):
        c.update(id="p-%d" % k, kind="pdf")
    for b in dc.batches(cases, 2000):
        res = vlib.exec_cases(binary, b, chk.scratch)
        with ProcessPoolExecutor(max_workers=vlib.NCPU) as ex:
            obs = list(ex.map(looks, [res[c["id"]] for c in b], chunksize=16))
        lines = []
        for c, o in zip(b, obs):
            d = {"slides": [abstract(s) for s in c["slides"]]}
            lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "d": d, "doc": c["doc"][0] if c["doc"] else {}}, "obs": {}})
            lines.append({"case": c["id"], "i": 1, "op": {"name": "drawn"}, "obs": o["drawn"]})
            if c["doc"]:
                lines.append({"case": c["id"], "i": 2, "op": {"name": "doc"}, "obs": o.get("doc", {"panic": True, "err": False})})
        chk.judge("PdfTrace", "PdfTrace.cfg", lines)
    return chk.finish({c["id"]: c for c in cases})
