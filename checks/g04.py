from lib import deckgen
from checks import deckmodels as dm
from checks import deckcommon as dc
import os

ALL = ["mem", "writer", "file", "lazy", "lazy2", "api", "drip", "lazydrip"]


def lines_of(cases, results):
    lines, jobs, slots = [], [], []
    for c in cases:
        lines.append(dc.reset_line(c, ["G04"]))
        ln = {"case": c["id"], "i": 1, "op": {"name": "same"}, "obs": {"panic": False, "err": False, "names": [], "digests": [], "full": results[c["id"]].get("res", {}).get("full", [])}}
        lines.append(ln)
        for en in c["entries"]:
            p, e, path = dc.outcome(results[c["id"]], en)
            ln["obs"]["panic"] |= p
            ln["obs"]["err"] |= e
            if path:
                ln["obs"]["names"].append(en)
                jobs.append((path, ("digests",)))
                slots.append(ln)
    for ln, v in zip(slots, dc.project_all(jobs)):
        ln["obs"]["digests"].append(v["digests"])
    for p, _ in jobs:
        os.remove(p)
    return lines


def blank(i, rng, c):
    return deckgen.blanken(rng, c, titles=True) if i % 4 == 1 else c


def run(chk):
    q = chk.quick
    em = chk.model("DeckMC", "DeckMC.cfg" if q else "DeckMC_thorough.cfg", timeout=850)
    es = chk.model("DeckMC", "SettingsMC.cfg")
    cases = dm.decks(chk, em, 40 if q else 1500, ALL, "m", rotate=False) + dm.decks(chk, es, 40 if q else 1000, ALL, "s", rotate=False)
    for i in range(80 if q else 2500):
        st = {} if i % 3 == 0 else deckgen.settings(chk.rng)
        cases.append(blank(i, chk.rng, deckgen.deck(chk.rng, "r-%d" % i, entries=ALL + ([] if st else ["content"]), settings=st, n=chk.rng.choice([1, 2, 3, 5, 11]))))
    cases += [dict(c, entries=ALL + ["content"]) for c in deckgen.large(chk.rng, "l-", ALL)]
    for n in (1, 2, 5, 10, 12):
        cases.append({"id": "plain-%d" % n, "kind": "deck", "title": "P & <%d>" % n, "settings": {}, "entries": ["plain", "plainw"], "slides": [dm.S(title="x")] * n})
    for i, c in enumerate(cases):
        if i % 4 == 0 and "mem" in c["entries"]:
            c["full"] = [0, 1, 30, 90, 100]
    chk.assumptions += ["creation timestamps, generated picture names and the zip timestamps of embedded workbooks are left out of the comparison", "lazy sources are deterministic", "the zip crate may panic (debug arithmetic) while it is dropped after a failed write; only reported success counts"]
    for b in dc.batches(cases, 200):
        chk.judge("DeckTrace", "DeckTrace.cfg", lines_of(b, dc.generate(chk, b)))
    return chk.finish({c["id"]: c for c in cases})
