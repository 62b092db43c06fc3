import os
from lib import vlib, deckgen, project as pj
from lib.vlib import tok
from checks import deckmodels as dm
from checks import deckcommon as dc

WANT = {"bullets", "style", "table", "shapes", "charts", "notes", "images"}


def theme(k):
    return [{"preset": ["", "dark", "tech"][k % 3], "name": "Theme %d <&>" % k, "colors": [["%06X" % (k * 1000 + i) for i in range(12)]], "major": ["Major %d" % k], "minor": [] if k % 2 else ["Minor & %d" % k]}]


def rest(k):
    s = dm.settings_for({"show", "sig", "print"} if k % 2 else {"handout", "print", "fonts"})
    s["print"][0]["footer"] = ["footer %d" % k]
    return s


def settings_of(m):
    s = {}
    if m["theme"]:
        s["theme"] = theme(int(m["theme"][1:]))
    if m["rest"]:
        s.update(rest(int(m["rest"][1:])))
    return s


def slide_of(k):
    lay = deckgen.LAYOUTS[k % 7]
    s = dm.S(title="Slide %d <b>" % k, layout=lay if lay != "Blank" else "", b=[dm.bullet("add", "b%d" % k), dm.bullet("sub", "c & %d" % k)])
    if k % 2:
        s["charts"] = [dm.mkchart(title="C%d" % k)]
    if k % 3 == 0:
        s["notes"] = ["note %d" % k]
    if k % 3 == 1:
        s["b"], s["table"] = [], [dm.table([["a", "t%d" % k], ["", "z"]])]
    return s


def from_model(e, cid):
    ops = []
    for k, o in enumerate(e["ops"]):
        c = {"name": o["name"], "who": o["who"], "title": "", "slide": {}, "set": {}}
        if o["name"] in ("title", "new"):
            c["title"] = ["Deck %d" % k, "R & <%d>" % k, ""][(k + len(cid)) % 3]
        elif o["name"] == "slide":
            c["slide"] = slide_of(k + len(e["ops"]))
        elif o["name"] in ("theme", "settings"):
            c["set"] = settings_of(o["set"])
        ops.append(c)
    return {"id": cid, "kind": "builder", "ops": ops}


def random_case(rng, cid, n):
    ops = []
    for k in range(n):
        nm = rng.choice(["new", "title", "title", "slide", "slide", "slide", "slide", "join", "join", "theme", "settings", "settings", "build", "build", "bytes", "save", "save", "elsewhere", "load", "load"])
        c = {"name": nm, "who": rng.choice(["x", "x", "y"]), "title": "", "slide": {}, "set": {}}
        if nm in ("title", "new"):
            c["title"] = deckgen.text(rng, empty=.1)
        elif nm == "slide":
            c["slide"] = deckgen.slide(rng, 1, WANT, deckgen.pool(rng))
            c["slide"]["images"] = [dict(i, src="bytes", name="") for i in c["slide"]["images"]]
            if c["slide"]["table"]:
                c["slide"]["b"] = []
                for r in c["slide"]["table"][0]["rows"]:
                    for q in r["cells"]:
                        q.update(gs=[], rs=[], hm=False, vm=False)
        elif nm == "theme":
            c["set"] = deckgen.settings(rng, ["theme"])
        elif nm == "settings":
            c["set"] = deckgen.settings(rng)
        ops.append(c)
    return {"id": cid, "kind": "builder", "ops": ops}


def two_builds(job):
    a, b = (open(p, "rb").read() for p in job)
    return sorted(pj.digests(pj.Pkg(a))) == sorted(pj.digests(pj.Pkg(b)))


def lines_of(cases, results):
    lines, jobs, slots, twins, tslots, files = [], [], [], [], [], []
    for c in cases:
        r = results[c["id"]]
        lines.append({"case": c["id"], "i": 0, "op": {"name": "reset"}, "obs": {}})
        obs = [{"panic": "process"}] if "fatal" in r else r["res"] if isinstance(r["res"], list) else [r["res"]]
        for k, (o, ob) in enumerate(zip(c["ops"], obs)):
            op = {"name": o["name"], "who": o["who"], "title": tok(o["title"]), "slide": deckgen.ab_slide(dict(deckgen.PLAIN, **o["slide"])) if o["slide"] else "", "set": deckgen.ab_settings(o["set"])}
            ln = {"case": c["id"], "i": k + 1, "op": op, "obs": {"panic": "panic" in ob}}
            lines.append(ln)
            if "panic" in ob:
                continue
            told = lambda x: {"title": tok(x["title"]), "count": x["count"], "titles": [tok(t) for t in x["titles"]]}
            ln["obs"].update(err=ob["err"] is not None, x=told(ob["x"]), y=told(ob["y"]), kept=ob["kept"], exists=ob["exists"], same=True, views=[])
            files += ob["paths"]
            if ob["paths"]:
                jobs.append((ob["paths"][0], ("slides", "settings")))
                slots.append(ln)
            if len(ob["paths"]) == 2:
                twins.append(ob["paths"])
                tslots.append(ln)
    for ln, v in zip(slots, dc.project_all(jobs)):
        ln["obs"]["views"] = [v]
    with dc.ProcessPoolExecutor(max_workers=vlib.NCPU) as ex:
        for ln, v in zip(tslots, ex.map(two_builds, twins, chunksize=4)):
            ln["obs"]["same"] = v
    for p in files:
        os.remove(p)
    return lines


def run(chk):
    q = chk.quick
    em = chk.model("BuilderMC", "BuilderMC.cfg" if q else "BuilderMC_thorough.cfg", timeout=850)
    em = sorted(em, key=str)
    em = chk.rng.sample(em, min(len(em), 1500 if q else 15000))
    cases = [from_model(e, "m-%d" % i) for i, e in enumerate(em)]
    cases += [random_case(chk.rng, "r-%d" % i, chk.rng.choice([5, 9, 14])) for i in range(120 if q else 2500)]
    binary = vlib.build_harness()
    for b in dc.batches(cases, 600):
        chk.judge("BuilderTrace", "BuilderTrace.cfg", lines_of(b, vlib.exec_cases(binary, b, chk.scratch)))
    chk.assumptions += ["a save that fails while writing (disk full) is not modelled; a save into a missing directory is",
                        "what a slide is after saving and loading is its title, bullet texts and table (R01); settings are not read back by the library"]
    return chk.finish({c["id"]: c for c in cases})
