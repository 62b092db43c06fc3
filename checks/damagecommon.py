"""Generated decks, damaged as the model says (RepairMC) and at random, validated and repaired."""
import os, re, random
from concurrent.futures import ProcessPoolExecutor
from lib import vlib, deckgen, damage, project as pj
from lib.vlib import tok
from checks import deckcommon as dc

NEUTRAL = [(), ("line",), ("attrs",), ("abs",), ("quote",), ("order",), ("line", "attrs"), ("attrs", "abs", "order"), ("line", "quote", "order", "abs")]
WANT = {"bullets", "table", "shapes", "links", "images", "cxns", "charts", "codes", "notes"}


def prepare(job):
    """writes the damaged file; returns the trace's first operation"""
    c, src, dst, fonts = job
    rng = random.Random("%s/%s" % (c["id"], c["seed"]))
    first = damage.load(src)
    parts = damage.rewrite(first, c["how"], rng)
    base = dict(parts)
    notes, fallback = {}, False
    for d in c["damage"]:
        before = dict(parts)
        damage.hurt(parts, d, rng, {k: v for k, v in first.items()}, notes)
        if d["k"] == "type" and parts != before:
            pb, pa = pj.Pkg(zipped(before)), pj.Pkg(zipped(parts))
            fallback = fallback or any(pa.ctype(n) not in ("", pb.ctype(n)) for n in parts)
    damage.dump(parts, dst)
    with open(dst, "rb") as f:
        v = damage.view(f.read())
    return {"name": "reset", "pkg": v, "damaged": parts != base, "fonts": fonts, "fallback": fallback, "badrels": [tok(n) for n in sorted(notes) if n.endswith(".rels")],
            "text": [[tok(n), "torn" if b is None else pj.sha(b)] for n, b in sorted(notes.items()) if n in parts]}


def zipped(parts):
    import io, zipfile
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        for n, b in parts.items():
            z.writestr(n, b)
    return f.getvalue()


def view_file(path):
    with open(path, "rb") as f:
        return damage.view(f.read())


def tri(v):
    return [[x[0], tok(x[1]), tok(x[2])] for x in v]


def run(chk, op, nmodel, nrandom, xml=True, others=False):
    em = sorted(chk.model("RepairMC", "RepairMC.cfg" if chk.quick else "RepairMC_thorough.cfg", timeout=850), key=str)
    em = [[]] + chk.rng.sample(em, min(len(em), nmodel))
    binary = vlib.build_harness()
    # decks: some of three slides for the model's damages, some larger
    decks = []
    for i in range(10 if chk.quick else 40):
        d = deckgen.deck(chk.rng, "base-%d" % i, want=WANT if i % 2 else {"bullets", "images", "notes"}, n=3, settings=deckgen.settings(chk.rng) if i % 3 == 2 else {})
        decks.append(d)
    big = []
    for i in range(8 if chk.quick else 60):
        big.append(deckgen.deck(chk.rng, "big-%d" % i, want=WANT, n=[1, 2, 5, 10, 12, 20][i % 6], settings=deckgen.settings(chk.rng) if i % 2 else {}))
    for d in decks + big:
        d["entries"] = ["mem"]
        d["kind"] = "deck"
    res = vlib.exec_cases(binary, decks + big, chk.scratch)
    file, fonts = {}, {}
    for d in decks + big:
        _, _, path = dc.outcome(res[d["id"]], "mem")
        if path:
            file[d["id"]] = path
            fonts[d["id"]] = bool(d["settings"].get("fonts"))
    by = {d["id"]: d for d in decks + big}
    decks, big = [d for d in decks if d["id"] in file], [d for d in big if d["id"] in file]
    if len(decks) < 5 or len(big) < 4:
        chk.bad("decks", 0, "%s:decks-not-generated" % chk.prop)
        return chk.finish({})
    cases = []
    for k, ds in enumerate(em):
        cases.append({"id": "m-%d" % k, "deck": decks[k % len(decks)]["id"], "damage": ds, "how": NEUTRAL[k % len(NEUTRAL)] if k % 2 else ()})
    for k, d in enumerate(decks + big):
        for j, how in enumerate(NEUTRAL):
            cases.append({"id": "n-%d-%d" % (k, j), "deck": d["id"], "damage": [], "how": how})
    for k in range(nrandom):
        d = chk.rng.choice(big)
        n = len(d["slides"])
        ds = []
        for _ in range(chk.rng.choice([1, 1, 2, 3, 5, 8])):
            kind = chk.rng.choice(["slide", "rel", "entry", "twice", "away", "extra", "extra", "type", "part", "web"] + (["amp", "amp", "cut"] if xml else []) + (["other"] if others else []))
            x = {"k": kind}
            if kind in ("slide", "rel", "entry", "twice", "away"):
                x["i"] = chk.rng.randint(1, n)
            if kind == "part":
                x["x"] = chk.rng.choice(sorted(damage.CORE))
            if kind == "other":
                x = {"k": "part", "x": chk.rng.choice(damage.OTHERS)}
            if kind == "extra":
                x["x"] = chk.rng.choice(["media", "chart", "notes", "embeddings", "Layout", "theme", ""])
            ds.append(x)
        cases.append({"id": "r-%d" % k, "deck": d["id"], "damage": ds, "how": chk.rng.choice(NEUTRAL)})
    for k in range(24 if chk.quick else 300):
        d = chk.rng.choice(decks + big)
        cases.append({"id": "x-%d" % k, "deck": d["id"], "damage": [{"k": "relamp", "x": ["", "_rels/.rels", damage.PRELS][k % 3]}], "how": chk.rng.choice(NEUTRAL)})
    for c in cases:
        c["seed"] = chk.seed
    for b in dc.batches(cases, 600):
        lines = judge_batch(chk, b, op, binary, file, fonts)
        chk.judge("RepairTrace", "RepairTrace.cfg", lines)
    return chk.finish({c["id"]: dict(c, deck=by[c["deck"]]) for c in cases})


def judge_batch(chk, cases, op, binary, file, fonts):
    ddir = os.path.join(chk.scratch, "damaged")
    os.makedirs(ddir, exist_ok=True)
    jobs = [(c, file[c["deck"]], os.path.join(ddir, c["id"] + ".pptx"), fonts[c["deck"]]) for c in cases]
    with ProcessPoolExecutor(max_workers=vlib.NCPU) as ex:
        resets = list(ex.map(prepare, jobs, chunksize=8))
        exe = [{"id": c["id"], "kind": "inspect", "do": [{"op": op, "path": j[2]}]} for c, j in zip(cases, jobs)]
        res = vlib.exec_cases(binary, exe, chk.scratch)
        lines, todo = [], []
        for c, rs, j in zip(cases, resets, jobs):
            r = res[c["id"]]
            o = {"panic": "process"} if "fatal" in r else r["res"][0] if isinstance(r["res"], list) else r["res"]
            lines.append({"case": c["id"], "i": 0, "op": rs, "obs": {}})
            ob = {"panic": "panic" in o, "err": "err" in o}
            if "issues" in o:
                ob.update(valid=o["valid"], issues=tri(o["issues"]))
            if "once" in o:
                for w in ("once", "twice"):
                    ob[w] = {k: tri(v) if isinstance(v, list) else v for k, v in o[w].items()}
                todo.append((ob, o["files"]))
            lines.append({"case": c["id"], "i": 1, "op": {"name": op}, "obs": ob})
        views = list(ex.map(view_file, [f for _, fs in todo for f in fs], chunksize=8))
    for k, (ob, fs) in enumerate(todo):
        ob["pkg"], ob["again"] = views[2 * k], {"sha": views[2 * k + 1]["sha"]}
        for f in fs:
            os.remove(f)
    for j in jobs:
        os.remove(j[2])
    return lines
