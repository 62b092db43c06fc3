"""Web pages of the model and random ones, rendered as HTML, converted, the presentation compared slide by slide."""
import re
from lib import vlib, webgen, clilib
from lib.vlib import tok
from checks import deckcommon as dc

DEFAULT = {"title": [], "source": True, "maxs": 20, "maxb": 6, "grouped": True, "code": True, "tables": True, "images": True}


def observe(r, cuts):
    o = {"panic": "process"} if "fatal" in r else r["res"]
    ob = {"panic": "panic" in o, "err": "err" in o}
    if "file" in o:
        b = open(o["file"], "rb").read()
        d = clilib.read_deck(b, layouts=True)
        ob["sound"] = d is not None
        if d:
            un = lambda t: re.sub(r"~([0-9a-f]+);", lambda m: chr(int(m.group(1), 16)), t)
            ob["title"] = d["title"]
            ob["slides"] = [{"t": s["t"], "b": [webgen.whole(un(x), cuts) for x in s["b"]], "layout": s["layout"], "more": bool(s["tab"] or s["o"] or s["pics"])} for s in d["slides"]]
    return ob


def run(chk):
    q, rng = chk.quick, chk.rng
    chk.assumptions += ["pages are handed over as text: nothing is fetched", "pages without loose text, text after the body or pictures inside paragraphs; one element marked as main content at most",
                        "a text that is too long may be cut anywhere in the second half of what fits"]
    em = sorted(chk.model("WebMC", "WebMC.cfg" if q else "WebMC_thorough.cfg", timeout=800), key=str)
    binary = vlib.build_harness("web")
    cases = []
    for k, d in enumerate(rng.sample(em, min(len(em), 3000 if q else 40000))):
        cases.append({"id": "m-%d" % k, "bs": webgen.from_model(d["blocks"], rng), "o": d["o"], "at": None})
    for k in range(3000 if q else 40000):
        o = dict(DEFAULT)
        if rng.random() < .7:
            o = {"title": rng.choice([[], [], [webgen.text(rng, 10)], [""]]), "source": rng.random() < .5, "maxs": rng.choice([0, 1, 2, 3, 5, 20, 100]), "maxb": rng.choice([1, 2, 3, 6, 50]),
                 "grouped": rng.random() < .5, "code": rng.random() < .7, "tables": rng.random() < .7, "images": rng.random() < .7}
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 30])
        cases.append({"id": "r-%d" % k, "bs": webgen.blocks(rng, 0, n), "o": o, "at": webgen.blocks(rng, 1, rng.choice([0, 1, 2, 5, 9])) if rng.random() < .35 else None})
    for c in cases:
        c["html"], c["p"] = webgen.page(rng, c["bs"], c["at"])
    for b in dc.batches(cases, 8000):
        res = vlib.exec_cases(binary, [{"id": c["id"], "kind": "web", "html": c["html"], "url": c["p"]["url"], "o": c["o"], "default": c["o"] == DEFAULT} for c in b], chk.scratch)
        lines = []
        for c in b:
            lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "p": webgen.export(c["p"]), "o": webgen.export(c["o"])}, "obs": {}})
            lines.append({"case": c["id"], "i": 1, "op": {"name": "convert"}, "obs": observe(res[c["id"]], list(webgen.longs(c["p"]["blocks"])))})
        chk.judge("WebTrace", "WebTrace.cfg", lines)
    return chk.finish({c["id"]: {"html": c["html"], "url": c["p"]["url"], "o": c["o"]} for c in cases})
