"""Texts of the model and random decks, exported, read back as HTML and as Markdown, judged block by block."""
from lib import vlib, exportlib as ex, deckgen
from checks import deckcommon as dc

PH = {"default": True, "notes": True, "nav": True, "light": True, "files": False, "dir": None}
PM = {"default": True, "numbers": True, "septext": "---", "sep": "rule", "notes": True, "tables": True, "images": True, "front": True}


def everywhere(t, follow="z"):
    """a deck with the text in every place, each followed by something that must stay as it is"""
    c = lambda x: dict(deckgen.cell(NoRandom(), False), t=x)
    s = dict(deckgen.PLAIN, title=t, b=[{"m": "add", "t": x, "st": {"k": "Bullet", "c": ""}, "lvl": 0, "f": []} for x in (t, follow, t)],
             table=[{"x": 0, "y": 0, "cols": [1, 1], "rows": [{"h": [], "cells": [c(t), c(follow)]}, {"h": [], "cells": [c(follow), c(t)]}]}],
             codes=[{"t": t, "lang": "rust", "x": 0, "y": 0, "w": 1, "h": 1}, {"t": follow, "lang": t, "x": 0, "y": 0, "w": 1, "h": 1}], notes=[t])
    return {"title": t, "slides": [s, dict(deckgen.PLAIN, title=follow)]}


class NoRandom:
    def random(self):
        return 1.0

    def choice(self, x):
        return x[0]

    def randint(self, a, b):
        return a


def observe(r, d):
    out = {}
    for f in ("html", "md"):
        o = {"panic": "process"} if "fatal" in r else r["res"].get(f, r["res"])
        ob = {"panic": "panic" in o, "err": "err" in o}
        if "text" in o:
            ob["blocks"] = ex.html_blocks(o["text"]) if f == "html" else ([ex.front_block(o["front"])] if d["md"]["front"] else []) + ex.md_blocks(o["events"])
        out[f] = ob
    return out


def run(chk):
    q, rng = chk.quick, chk.rng
    chk.assumptions += ["texts without control characters other than tab and line ends", "white space compared collapsed within a line, and blank lines do not count, outside code",
                        "HTML read by Python's html.parser, Markdown by pulldown-cmark (tables and strikethrough on)", "pictures: their bytes (HTML) and file names (Markdown)"]
    em = sorted(chk.model("ExportMC", "ExportMC.cfg" if q else "ExportMC_thorough.cfg", timeout=800), key=str)
    texts = sorted({"".join(e["t"]) for e in em})
    chk.notes["texts"] = len(texts)
    binary = vlib.build_harness("md")
    cases = []
    for k, t in enumerate(texts if len(texts) <= (800 if q else 10 ** 9) else rng.sample(texts, 800)):
        cases.append(dict(everywhere(t), id="m-%d" % k, html=PH, md=PM))
    for k in range(700 if q else 15000):
        h, m = ex.options(rng)
        cases.append({"id": "r-%d" % k, "title": ex.text(rng), "slides": [ex.slide(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))], "html": h, "md": m})
    for k in range(4 if q else 40):         # beyond the usual sizes
        h, m = ex.options(rng)
        many = [ex.slide(rng) for _ in range([120, 12, 1, 2][k % 4])]
        wide = ex.slide(rng, lambda r: "".join(ex.text(r) for _ in range(60)))
        wide["b"] = [o for _ in range(12) for o in ex.slide(rng)["b"]][:60]
        t = deckgen.table(rng, False, False, 1, 1)
        t["cols"], t["rows"] = [1] * 27, [{"h": [], "cells": [dict(deckgen.cell(rng, False), t=ex.text(rng)) for _ in range(27)]} for _ in range(14)]
        wide["table"] = [t]
        cases.append({"id": "l-%d" % k, "title": ex.text(rng), "slides": many + [wide], "html": h, "md": m})
    for b in dc.batches(cases, 4000):
        res = vlib.exec_cases(binary, [dict(c, kind="export") for c in b], chk.scratch)
        lines = []
        for c in b:
            ob = observe(res[c["id"]], c)
            lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "d": ex.abstract(c), "html": {k: v for k, v in c["html"].items() if k != "dir"}, "md": {k: v for k, v in c["md"].items() if k != "septext"}}, "obs": {}})
            lines.append({"case": c["id"], "i": 1, "op": {"name": "html"}, "obs": ob["html"]})
            lines.append({"case": c["id"], "i": 2, "op": {"name": "md"}, "obs": ob["md"]})
        chk.judge("ExportTrace", "ExportTrace.cfg", lines)
    return chk.finish({c["id"]: c for c in cases})
