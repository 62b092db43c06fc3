from lib import vlib, deckgen, rearrange
from lib.vlib import tok
from checks import deckmodels as dm
from checks import deckcommon as dc
import os

NEW = {"bullets", "style", "table", "shapes", "codes", "cxns"}     # content an editor can place on a slide


def titled(slides, start=1):
    for i, s in enumerate(slides):
        s["title"] = "%s %d" % (["Alpha", "Beta <b>", "R&D", "\u00e9t\u00e9", "Q \"3\""][(i + start) % 5], i + start)
        s["tb"] = s["ti"] = s["tu"] = []
        if s["layout"] == "Blank":
            s["layout"] = "TitleOnly"
    return slides


def from_model(e, cid):
    n, lk, nt = e["init"]["n"], e["init"]["link"], e["init"]["notes"]
    slides = []
    for i in range(1, n + 1):
        s = dm.S(title="x")
        to = n if (lk == "first-to-last" and i == 1 and n > 1) or (lk == "self" and i == n) else 1 if lk == "last-to-first" and i == n and n > 1 else 0
        if to:
            s["shapes"] = [dm.rect(t=["go"], link=[dm.mklink("slide", "", to)])]
        if nt == "all" or (nt == "second" and i == 2):
            s["notes"] = ["notes %d" % i]
        if i % 2:
            s["images"] = [dm.mkimage(b"img%d" % i)]
        else:
            s["charts"] = [dm.mkchart(title="C%d" % i)]
        slides.append(s)
    c = {"id": cid, "kind": "edit", "title": "edit", "settings": {}, "slides": titled(slides), "ops": [{"name": "open", "i": 0, "j": 0}]}
    ar = e["init"]["ar"]
    if ar["fs"] != list(range(1, n + 1)) or ar["ls"] != list(range(1, n + 1)):
        c.update(rearr=cid, layout=ar)
    for k, o in enumerate(e["ops"]):
        o = dict(o)
        if o["name"] in ("add", "insert", "update"):
            o["content"] = titled([dm.S(b=[dm.bullet("add", "new %d" % k)], layout=deckgen.LAYOUTS[(k + n + o["i"]) % 7])], 100 + k)[0]
        c["ops"].append(o)
    return c


def random_case(rng, cid, nops):
    n = rng.choice([1, 2, 3, 5, 11])
    c = deckgen.deck(rng, cid, n=n, settings=deckgen.settings(rng) if rng.random() < .5 else {})
    c["kind"] = "edit"
    titled(c["slides"])
    for s in c["slides"]:
        s["images"] = [dict(i, src="bytes", name="") for i in s["images"]]
    c["ops"] = [{"name": "open", "i": 0, "j": 0}]
    for k in range(nops):
        nm = rng.choice(["add", "insert", "insert", "update", "dup", "dup", "remove", "remove", "reorder", "reorder", "reorder", "reopen", "get"])
        o = {"name": nm, "i": 0, "j": 0}
        if nm not in ("add", "reopen"):
            o["i"] = rng.choice([0, n - 1, n, n + 1, rng.randint(0, max(0, n - 1))]) if n else rng.choice([0, 1])
            o["i"] = max(0, o["i"])
        if nm == "reorder":
            o["j"] = max(0, rng.choice([0, n - 1, n, rng.randint(0, max(0, n - 1))]))
        if nm in ("add", "insert", "update"):
            o["content"] = titled([deckgen.slide(rng, 1, NEW, [])], 200 + k)[0]
        if nm == "add" or (nm == "insert" and o["i"] <= n) or (nm == "dup" and o["i"] < n):
            n += 1
        elif nm == "remove" and o["i"] < n:
            n -= 1
        c["ops"].append(o)
    return c


def lines_of(cases, results):
    lines, jobs, slots = [], [], []
    for c in cases:
        r = results[c["id"]]
        lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "deck": deckgen.abstract(c)}, "obs": {}})
        obs = [{"panic": "process"}] if "fatal" in r else r["res"] if isinstance(r["res"], list) else [r["res"]]
        for k, (o, ob) in enumerate(zip(c["ops"], obs)):
            op = {"name": o["name"], "i": o["i"], "j": o["j"]}
            if "content" in o:
                op["c"] = deckgen.ab_slide(o["content"])
            ln = {"case": c["id"], "i": k + 1, "op": op}
            lines.append(ln)
            if "panic" in ob:
                ln["obs"] = {"panic": True}
                continue
            ln["obs"] = {"panic": False, "err": ob["err"] or ob["save_err"] is not None, "ret": ob["ret"], "count": ob["count"], "titles": [[tok(t) for t in x] for x in ob["titles"]], "beyond": ob["beyond"], "new": []}
            if ob["save_err"] is None:
                what = ["pkg", "edit"]
                if "content" in o:
                    what.append("slide@%d" % (ob["count"] - 1 if o["name"] == "add" else o["i"]))
                jobs.append((ob["path"], tuple(what)))
                slots.append(ln)
                if "src" in ob:
                    jobs.append((ob["src"], ("edit",)))
                    slots.append(ln["obs"].setdefault("was", {}))
            else:
                ln["obs"].update(pkg={}, fps=[], other=[])
    for ln, v in zip(slots, dc.project_all(jobs)):
        (ln["obs"] if "obs" in ln else ln).update(v)
    for p, _ in jobs:
        os.remove(p)
    return lines


def known():
    """content an editor cannot place completely: recorded findings"""
    out = []
    extra = {"kf-editor-new-chart": {"charts": [dm.mkchart()]}, "kf-editor-new-image": {"images": [dm.mkimage()]}, "kf-editor-new-notes": {"notes": ["n"]},
             "kf-editor-new-link": {"shapes": [dm.rect(t=["x"], link=[dm.mklink()])]}}
    for k, x in extra.items():
        c = dm.S(title="New", **x)
        out.append({"id": k, "kind": "edit", "title": "t", "settings": {}, "slides": titled([dm.S(title="x")]), "ops": [{"name": "open", "i": 0, "j": 0}, {"name": "add", "i": 0, "j": 0, "content": c}]})
    out.append({"id": "kf-editor-from-nothing", "kind": "edit", "title": "t", "settings": {}, "slides": [], "empty": True,
                "ops": [{"name": "open", "i": 0, "j": 0}, {"name": "add", "i": 0, "j": 0, "content": dm.S(title="New")}]})
    return out


def run(chk):
    q = chk.quick
    em = chk.model("EditMC", "EditMC.cfg" if q else "EditMC_thorough.cfg", timeout=850)
    em = sorted(em, key=lambda e: str(e))
    plain = [e for e in em if e["init"]["ar"]["fs"] == e["init"]["ar"]["ls"] == list(range(1, e["init"]["n"] + 1))]
    keys = {id(e) for e in plain}
    other = [e for e in em if id(e) not in keys]
    em = chk.rng.sample(plain, min(len(plain), 180 if q else 4000)) + chk.rng.sample(other, min(len(other), 90 if q else 3000))
    cases = [from_model(e, "m-%d" % i) for i, e in enumerate(em)]
    cases += [random_case(chk.rng, "r-%d" % i, chk.rng.choice([3, 6, 10])) for i in range(50 if q else 1500)]
    many = deckgen.large(chk.rng, "l-", ["mem"], NEW | {"images", "charts", "notes"})[0]
    new = lambda k: titled([dm.S(b=[dm.bullet("add", "new %d" % k)], layout=deckgen.LAYOUTS[k % 4])], 300 + k)[0]
    many.update(kind="edit", slides=titled(many["slides"]), ops=[dict({"i": 0, "j": 0}, **o) for o in (
        {"name": "open"}, {"name": "reorder", "i": 104, "j": 0}, {"name": "reorder", "i": 1, "j": 99}, {"name": "dup", "i": 9}, {"name": "remove", "i": 100}, {"name": "insert", "i": 10, "content": new(1)},
        {"name": "add", "content": new(2)}, {"name": "reopen"}, {"name": "remove", "i": 0}, {"name": "update", "i": 99, "content": new(3)}, {"name": "get", "i": 104}, {"name": "get", "i": 105})])
    for s in many["slides"]:
        s["images"] = [dict(i, src="bytes", name="") for i in s["images"]]
    cases.append(many)
    cases += known()
    for i, c in enumerate(cases):       # files as other producers leave them
        if c["id"].startswith("r-") and i % 2:
            c["rearr"] = "%s/%d" % (c["id"], chk.seed)
    binary = vlib.build_harness()
    rearrange.prepare(chk, binary, cases)
    for b in dc.batches(cases, 400):
        res = vlib.exec_cases(binary, b, chk.scratch)
        chk.judge("EditTrace", "EditTrace.cfg", lines_of(b, res))
    chk.assumptions += ["new slides carry text, tables, shapes, connectors and code; charts, pictures, notes, ink and links on new slides are recorded findings", "titles are distinct and not blank"]
    return chk.finish({c["id"]: c for c in cases})
