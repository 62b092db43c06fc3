from lib import vlib, deckgen, rearrange
from lib.vlib import tok
from checks import deckmodels as dm
from checks import deckcommon as dc

ALONE = {"bullets", "style", "table"}
RICH = {"bullets", "style", "table", "shapes", "links", "images", "cxns", "charts", "codes", "notes"}


def txt(ts):
    return "".join(dm.TOKS[t] for t in ts)


def slide_of(m, k):
    s = dm.S(title=txt(m["title"]) if m["title"] != ["u"] else "Unit %d" % k, layout=m["layout"])
    s["b"] = [dm.bullet("add" if k % 3 else "num", "u%d.%d" % (k, i) if t == ["u"] else txt(t)) for i, t in enumerate(m["bullets"])]
    for t in m["table"]:
        rows = [[dm.cell("u%d" % i if c["t"] == ["u"] else txt(c["t"]), gs=[c["gs"]] if c["gs"] > 1 else [], rs=[c["rs"]] if c["rs"] > 1 else [], hm=c["hm"], vm=c["vm"]) for i, c in enumerate(r)] for r in t]
        s["table"] = [dm.table(rows)]
    return s


def clean(s):
    """what chains of import and generation are judged on"""
    if s["table"]:
        s["b"] = []                     # recorded: kf-import-bullets-and-table
        t = s["table"][0]
        if any(c["hm"] or c["vm"] or c["gs"] or c["rs"] for r in t["rows"] for c in r["cells"]):
            for r in t["rows"]:
                for c in r["cells"]:
                    c.update(gs=[], rs=[], hm=False, vm=False)
    return s


def sl(x):
    return {"title": tok(x["title"]), "body": [tok(t) for t in x["body"]], "tables": [[[{"t": tok(c["t"]), "rs": c["rs"], "gs": c["gs"]} for c in r] for r in t] for t in x.get("tables", [])],
            "shapes": [tok(t) for t in x.get("shapes", [])], "all": [tok(t) for t in x.get("all", [])]}


def lines_of(cases, results):
    out = []
    for c in cases:
        r = results[c["id"]]
        out.append({"case": c["id"], "i": 0, "op": {"name": "reset", "deck": deckgen.abstract(c)}, "obs": {}})
        meta = lambda v: {k: tok(x) if k in ("creator", "by") else x for k, x in v.items()}
        steps = [{"name": "generate", "hop": 0, "panic": "process"}] if "fatal" in r else r["res"] if isinstance(r["res"], list) else [dict(r["res"], name="generate", hop=0)]
        for k, o in enumerate(steps):
            ob = {"panic": "panic" in o, "err": "err" in o}
            if "count" in o:
                ob.update(title=tok(o.get("title", "")), count=o["count"], info=o.get("info", 0) or 0, slides=[sl(x) for x in o["slides"]], same=o.get("same", True), beyond=o.get("beyond", True),
                          text=[tok(t) for t in o.get("text", [])])
            op = {"name": o["name"], "hop": o["hop"], "core": []}
            if "core" in c and "core" in o and o["hop"] == 0:
                ob["core"] = [meta(o["core"])]
                op["core"] = [meta(c["core"])]
            out.append({"case": c["id"], "i": k + 1, "op": op, "obs": ob})
    return out


def run(chk):
    q = chk.quick
    em = sorted(chk.model("ReadMC", "ReadMC.cfg" if q else "ReadMC_thorough.cfg", timeout=850), key=str)
    em = chk.rng.sample(em, min(len(em), 2000 if q else 20000))
    cases, per = [], 12
    sls = [slide_of(m, k) for k, m in enumerate(em)]
    for i in range(0, len(sls), per):
        k = i // per
        cases.append({"id": "m-%d" % k, "kind": "read", "title": deckgen.text(chk.rng), "settings": {}, "hops": [1, 2, 3][k % 3], "slides": sls[i:i + per]})
    for i in range(120 if q else 3000):
        rich = i % 3 == 0
        c = deckgen.deck(chk.rng, "r-%d" % i, want=RICH if rich else ALONE, n=chk.rng.choice([1, 2, 3, 5, 10, 11, 21]), settings=deckgen.settings(chk.rng) if i % 4 == 0 else {})
        c.update(kind="read", hops=[0, 1, 2, 3][i % 4])
        c["slides"] = [clean(s) for s in c["slides"]]
        cases.append(c)
    for i, c in enumerate(deckgen.large(chk.rng, "l-", ["mem"], RICH)):
        c.update(kind="read", hops=1)
        c["slides"] = [clean(s) for s in c["slides"]]
        cases.append(c)
    cases.append({"id": "kf-import-bullets-and-table", "kind": "read", "title": "k", "settings": {}, "hops": 1,
                  "slides": [dm.S(title="t", layout="TwoColumn", b=[dm.bullet("add", "kept")], table=[dm.table([["a", "b"]])])]})
    for i, c in enumerate(cases):       # files as other producers leave them
        if i % 3 == 1 and not c["id"].startswith("kf-"):
            c["rearr"] = "%s/%d" % (c["id"], chk.seed)
    binary = vlib.build_harness()
    rearrange.prepare(chk, binary, cases)
    for b in dc.batches(cases, 400):
        chk.judge("ReadTrace", "ReadTrace.cfg", lines_of(b, vlib.exec_cases(binary, b, chk.scratch)))
    chk.assumptions += ["a slide holds at most one table; reading is judged on titles, bullets, table cells with their spans, and the text of shapes",
                        "pictures, charts, notes and formatting are not read back by the library and not judged here"]
    return chk.finish({c["id"]: c for c in cases})
