"""Command lines of the model (all short ones, random longer ones) given to the real pptcli in scratch directories, judged after each."""
import os
from concurrent.futures import ProcessPoolExecutor
from lib import vlib, clilib as cl
from lib.vlib import tok

USAGE = [[], ["frobnicate"], ["create"], ["merge"], ["merge", "-o", "c.pptx"], ["merge", "a.pptx"], ["export", "d/p.pptx"], ["export", "d/p.pptx", "x.pdf", "--format", "gif"], ["create", "c.pptx", "--slides", "many"],
         ["create", "c.pptx", "--slides=-1"], ["md2ppt"], ["md2ppt", "a.md", "c.pptx", "d.pptx"], ["html2ppt", "b.html", "--max-slides"], ["validate"], ["validate", "d/p.pptx", "--xml"], ["info"], ["pdf2ppt"]]
NONE = {"name": "none", "in": [], "out": [], "title": [], "tool": "works"}


def deep(v, f):
    if isinstance(v, dict):
        return {k: (deep(x, f) if k in ("slides", "v", "t", "b", "tab", "o", "title", "x") else x) for k, x in v.items()}
    return [deep(x, f) for x in v] if isinstance(v, list) else f(v) if isinstance(v, str) and v not in ("md", "html", "deck", "junk") else v


def dress(case, rng):
    """the model's texts replaced by others, everywhere alike"""
    keep, used = {"": ""}, set()
    def f(x):
        if x not in keep:
            while True:
                w = " ".join(rng.choice(cl.WORDS) for _ in range(rng.choice([1, 1, 2])))
                if w not in used and not (x in TITLES and "日" in w):
                    break
            used.add(w)
            keep[x] = w
        return keep[x]
    case["fs"] = [{"n": e["n"], "v": deep(e["v"], f)} for e in case["fs"]]
    case["cmds"] = [dict(c, title=[f(t) for t in c["title"]]) for c in case["cmds"]]


TITLES = {"One", "Two", "Three", "Four", "Five", "S", "T"}


def prepare(em, k, kind, rng, files):
    """the case: presentations there are at first are made by a command of their own"""
    case = {"id": "%s-%d" % (kind, k), "fs": [], "dirs": ["", "d"], "cmds": list(em["cmds"]), "padded": rng.random() < .5}
    for e in files:
        if e["v"]["k"] == "deck":
            n = {"d": e["n"]["d"], "s": e["n"]["s"] + "_", "e": "md"}
            case["cmds"].insert(0, dict(NONE, name="md2ppt", **{"in": [n], "out": [e["n"]], "title": [e["v"]["title"]]}))
            e = {"n": n, "v": {"k": "md", "slides": e["v"]["slides"]}}
        case["fs"].append(e)
    if rng.random() < .7:
        dress(case, rng)
    for c in case["cmds"]:
        if c["name"] == "md2ppt" and rng.random() < .2:
            c["alias"] = rng.choice(["from-md", "from-markdown"])
        if c["name"] == "html2ppt" and rng.random() < .2:
            c["alias"] = rng.choice(["from-html", "from-html-file"])
        if c["name"] == "merge" and rng.random() < .5:
            c["short"] = True
    if rng.random() < .15:
        case["cmds"].insert(rng.randrange(1, len(case["cmds"]) + 1), dict(NONE, name="usage", argv=rng.choice(USAGE)))
    return case


def lines(case, obs):
    out = [{"case": case["id"], "i": 0, "op": {"name": "reset", "fs": deep(case["fs"], tok), "dirs": case["dirs"]}, "obs": {}}]
    for i, (c, o) in enumerate(zip(case["cmds"], obs), 1):
        op = {k: v for k, v in c.items() if k not in ("argv", "alias", "short")}
        op["title"] = [tok(t) for t in c["title"]]
        out.append({"case": case["id"], "i": i, "op": op, "obs": o})
    return out


def run(chk):
    q, rng = chk.quick, chk.rng
    chk.assumptions += ["pdftoppm is a stand-in that writes one picture per page (or fails, or writes rubbish, or is not there)", "presentations read by the check's own ZIP/XML reader, pages by its PDF and HTML readers",
                        "documents of headings, flat lists, tables and code blocks (M01 and H01 cover the rest)", "not judged: what the commands print besides the reports of validate --json and info"]
    em = sorted(chk.model("CliMC", "CliMC.cfg", timeout=800), key=str)
    if not q:
        em += sorted(chk.model("CliMC", "CliMC_thorough.cfg", timeout=800), key=str)
    more = sorted(chk.sample("CliMC", "CliMC_random.cfg", 600 if q else 12000, 14, timeout=800), key=str)
    files = em[0]["fs"]
    if q:
        em = rng.sample(em, 1500)
    binary = cl.build()
    bins = cl.tools(chk.scratch)
    cases = [prepare(e, k, "m", rng, files) for k, e in enumerate(em)] + [prepare(e, k, "r", rng, files) for k, e in enumerate(more)]
    cases += [{"id": "u-%d" % k, "fs": [], "dirs": ["", "d"], "cmds": [dict(NONE, name="usage", argv=a)]} for k, a in enumerate(USAGE)]
    n = lambda d, s, e: {"d": d, "s": s, "e": e}
    two = [{"t": "One", "b": ["a"], "tab": [], "o": [], "pics": []}] * 2
    for k, pages in enumerate((1, 9, 10, 11, 12, 101)):
        for m in (False, True):
            cases.append({"id": "d-pages-%d-%s" % (pages, m), "dirs": ["", "d"], "fs": [], "padded": m, "cmds": [
                dict(NONE, name="create", n=pages, out=[n("", "c", "pptx")]), dict(NONE, name="export", format="", **{"in": [n("", "c", "pptx")], "out": [n("", "x", "pdf")]}),
                dict(NONE, name="pdf2ppt", **{"in": [n("", "x", "pdf")]})]})
    cases.append({"id": "k-merge-pictures", "dirs": ["", "d"], "fs": [{"n": n("", "a", "md"), "v": {"k": "md", "slides": two}}], "cmds": [
        dict(NONE, name="md2ppt", **{"in": [n("", "a", "md")]}), dict(NONE, name="export", format="pdf", **{"in": [n("", "a", "pptx")], "out": [n("", "x", "pdf")]}),
        dict(NONE, name="pdf2ppt", **{"in": [n("", "x", "pdf")]}), dict(NONE, name="merge", strict=True, **{"in": [n("", "x", "pptx"), n("", "a", "pptx")], "out": [n("", "c", "pptx")]})]})
    with ProcessPoolExecutor(max_workers=vlib.NCPU) as ex:
        obs = dict(ex.map(cl.run, [(binary, bins, c, chk.scratch) for c in cases], chunksize=8))
    chk.notes["commands run"] = sum(len(o) for o in obs.values())
    for k in range(0, len(cases), 4000):
        chk.judge("CliTrace", "CliTrace.cfg", [l for c in cases[k:k + 4000] for l in lines(c, obs[c["id"]])])
    return chk.finish({c["id"]: c for c in cases})
