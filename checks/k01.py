"""Generated decks, furnished with what other producers add, compressed with every choice of options."""
import os, random, io, zipfile
from concurrent.futures import ProcessPoolExecutor
from lib import vlib, deckgen, damage, furnish, project as pj
from checks import deckcommon as dc

WANT = {"bullets", "table", "shapes", "links", "images", "cxns", "charts", "codes", "notes"}
FORM = ["pretty", "texts", "quotes", "xml"]
MAP = {"limg": "limg", "nimg": "nimg", "lone": "lone", "comment": "comment", "custom": "custom", "xml": "xml"}


def prepare(job):
    c, src, dst = job
    rng = random.Random("%s/%s" % (c["id"], c["seed"]))
    parts = damage.load(src)
    for w in c["add"]:
        furnish.add(parts, w, rng)
    if c["how"]:
        parts = damage.rewrite(parts, c["how"], rng)
    with zipfile.ZipFile(dst, "w", zipfile.ZIP_STORED if c["pack"] == "stored" else zipfile.ZIP_DEFLATED, compresslevel=9 if c["pack"] == "tight" else None) as z:
        for n in parts:
            z.writestr(zipfile.ZipInfo(n, (1980, 1, 1, 0, 0, 0)), parts[n], zipfile.ZIP_STORED if c["pack"] == "stored" else zipfile.ZIP_DEFLATED, 9)
    with open(dst, "rb") as f:
        return furnish.view(f.read())


def view_file(path):
    with open(path, "rb") as f:
        return furnish.view(f.read())


def run(chk):
    q = chk.quick
    chk.assumptions += ["packages generated by the library, furnished by the check with parts other producers write", "overlapping calls are sampled by real threads, every interleaving only in the model"]
    em = sorted(chk.model("CompressMC", "CompressMC.cfg", timeout=300), key=str)
    chk.model("CompressCallsMC", "CompressCallsMC.cfg")
    binary = vlib.build_harness()
    decks = []
    for i in range(14 if q else 60):
        d = deckgen.deck(chk.rng, "d-%d" % i, want=WANT if i % 2 else {"bullets", "images", "notes"}, n=[2, 3, 1, 4, 11][i % 5], settings=deckgen.settings(chk.rng) if i % 3 == 2 else {})
        d["entries"] = ["mem"]
        decks.append(d)
    res = vlib.exec_cases(binary, decks, chk.scratch)
    file = {}
    for d in decks:
        _, _, path = dc.outcome(res[d["id"]], "mem")
        if path:
            file[d["id"]] = path
    decks = [d for d in decks if d["id"] in file]
    if len(decks) < 5:
        chk.bad("decks", 0, "K01:decks-not-generated")
        return chk.finish({})
    noted = [d for d in decks if any(x.get("notes") for x in d["slides"])] or decks
    cases = []
    for k, m in enumerate(chk.rng.sample(em, min(len(em), 320 if q else 4096))):
        have = m["have"]
        d = chk.rng.choice(noted if "notes" in have or "nimg" in have else decks)
        cases.append({"id": "m-%d" % k, "deck": d["id"], "add": [MAP[h] for h in have if h in MAP] + [f for f in FORM if chk.rng.random() < .3], "o": dict(m["o"])})
    for k in range(200 if q else 4000):
        d = chk.rng.choice(decks)
        o = {x: chk.rng.random() < .6 for x in ("media", "props", "notes", "comments", "xml")}
        cases.append({"id": "r-%d" % k, "deck": d["id"], "add": [x for x in ["lone", "named", "limg", "simg", "nimg", "ext", "comment", "custom"] + FORM if chk.rng.random() < .4], "o": o})
    for k, c in enumerate(cases):
        c.update(kind="compress", seed=chk.seed, pack=chk.rng.choice(["deflated", "stored", "tight"]), how=chk.rng.choice([(), (), ("attrs",), ("abs",), ("quote",), ("line", "order"), ("line", "attrs", "quote", "abs")]))
        c["o"]["target"] = chk.rng.choice([0, 0, 1, 20000, 60000, 10 ** 9])
        c["o"]["level"] = chk.rng.choice(["light", "medium", "aggressive", "custom"])
    kd = os.path.join(chk.scratch, "in")
    os.makedirs(kd, exist_ok=True)
    for b in dc.batches(cases, 600):
        chk.judge("CompressTrace", "CompressTrace.cfg", judge_batch(b, binary, file, chk, kd))
    return chk.finish({c["id"]: c for c in cases})


def judge_batch(cases, binary, file, chk, kd):
    path = {c["id"]: os.path.join(kd, c["id"] + ".pptx") for c in cases}
    lines, todo = [], []
    with ProcessPoolExecutor(max_workers=vlib.NCPU) as ex:
        views = list(ex.map(prepare, [(c, file[c["deck"]], path[c["id"]]) for c in cases], chunksize=8))
        exe = []
        for k, c in enumerate(cases):
            other = [{"path": path[x["id"]], "o": x["o"]} for x in chk.rng.sample(cases, 3)] if k % 8 == 0 else []
            exe.append({"id": c["id"], "kind": "compress", "do": [{"op": "compress", "path": path[c["id"]], "o": c["o"], "with": other}, {"op": "analyze", "path": path[c["id"]]}]})
        # one process at a time looks at the temporary directory of its worker
        res = vlib.exec_cases(binary, exe, chk.scratch, timeout=60)
        for c, v in zip(cases, views):
            r = res[c["id"]]
            o = r.get("res") if isinstance(r.get("res"), list) else [{"panic": "process"}] * 2
            lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "pkg": v}, "obs": {}})
            ob = {"panic": "panic" in o[0], "err": "err" in o[0]}
            if "files" in o[0]:
                ob.update({k: o[0][k] for k in ("memr", "filer", "par", "left")})
                with open(path[c["id"]], "rb") as f:
                    ob["source"] = pj.sha(f.read())
                todo.append((ob, o[0]["files"]))
            lines.append({"case": c["id"], "i": 1, "op": {"name": "compress", "o": c["o"]}, "obs": ob})
            oa = {"panic": "panic" in o[1], "err": "err" in o[1]}
            oa.update({"a": o[1]["a"]} if "a" in o[1] else {})
            lines.append({"case": c["id"], "i": 2, "op": {"name": "analyze"}, "obs": oa})
        outs = list(ex.map(view_file, [f for _, fs in todo for f in fs], chunksize=8))
    for k, (ob, fs) in enumerate(todo):
        ob["mem"], f = outs[2 * k], outs[2 * k + 1]
        ob["file"], ob["filebytes"] = f["sha"], f["bytes"]
        for x in fs:
            os.remove(x)
    for x in path.values():
        os.remove(x)
    return lines
