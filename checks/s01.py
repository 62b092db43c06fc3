import re
from lib import vlib
from lib.vlib import tok
from checks.common import run_ops, group_probes, rtext, xml_frag, near

P14 = "{http://schemas.microsoft.com/office/powerpoint/2010/main}"
UM = (1 << 64) - 1


def num(s):
    if s == "-":
        return -1
    v = int(s)
    return v if v < 500000 else max(500001, 1000000 - (UM - v))


def secv(x):
    return {"name": tok(x["name"]), "first": num(x["first"]), "count": num(x["count"]), "last": num(x["last"])}


def run(chk):
    em = chk.model("SectionsMC", "SectionsMC.cfg" if chk.quick else "SectionsMC_thorough.cfg")
    cases = group_probes(em, lambda e: {"kind": "sections", "slides": 5, "names": ["a", "b", "c"]})
    rng = chk.rng
    for n in range(80 if chk.quick else 2500):
        names = [rtext(rng) for _ in range(rng.randint(1, 4))]
        names += [near(rng, x) for x in names if rng.random() < .4]
        ops = []
        slides = rng.choice([0, 1, 4, 9, 12])
        for _ in range(rng.randint(2, 16)):
            z = rng.random()
            if z < .62:
                f, c = rng.randint(0, 10), rng.choice([0, 1, 1, 2, 3, 5])
                if rng.random() < .08:
                    f, c = rng.choice([("max", 1), ("max", "max"), (rng.randint(0, 5), "max"), ("max", 0)])
                ops.append({"name": "add", "sec": rng.choice(names), "first": f, "count": c})
            elif z < .8:
                ops.append({"name": "remove", "sec": rng.choice(names + ["zz"])})
            elif z < .97:
                ops.append({"name": "rename", "sec": rng.choice(names + ["zz"]), "to": rng.choice(names + [rtext(rng)])})
            else:
                ops.append({"name": "clear"})
        cases.append({"id": "rnd-%d" % n, "kind": "sections", "slides": slides, "names": names + ["zz"], "ops": ops})

    def conv(o, c):
        big = lambda v: 1000000 if v == "max" else v
        return dict(name=o["name"], sec=tok(o.get("sec", "")), to=tok(o.get("to", "")), first=big(o.get("first", 0)), count=big(o.get("count", 0)))

    def obs(ob, o, c):
        root = xml_frag(ob["xml"])
        secs = []
        if root is not None:
            for s in root.iter(P14 + "section"):
                secs.append({"name": tok(s.get("name", "?")), "guid": s.get("id", ""),
                             "guidok": bool(re.fullmatch(r"\{[0-9A-F]{8}(-[0-9A-F]{4}){3}-[0-9A-F]{12}\}", s.get("id", ""))),
                             "ids": [num(i.get("id", "0")) for i in s.iter(P14 + "sldId")]})
        return {"ok": ob["ok"], "len": ob["len"], "empty": ob["empty"], "wf": root is not None, "xml": secs,
                "secs": [secv(x) for x in ob["secs"]], "at": [secv(x) for x in ob["at"]], "get": [secv(x) for x in ob["get"]]}
    chk.assumptions += ["up to 16 operations on decks of up to 12 slides, plus bounds at usize::MAX"]
    return run_ops(chk, cases, lambda c: {"slides": c["slides"], "names": [tok(x) for x in c["names"]]}, conv, obs,
                   "SectionsTrace", "SectionsTrace.cfg")
