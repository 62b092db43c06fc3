from lib import deckgen
from checks import deckmodels as dm
from checks import deckcommon as dc
import itertools, os

ENTRIES = ["mem", "writer", "lazy", "api"]


def lines_of(cases, results):
    lines, jobs, slots = [], [], []
    for c in cases:
        en = c["entries"][0]
        lines.append(dc.reset_line(c, ["G09"]))
        a = dc.outcome(results[c["id"]], en)
        b = dc.outcome(results[c["id"] + "-bare"], en)
        ln = {"case": c["id"], "i": 1, "op": {"name": "settings", "entry": en}, "obs": {"panic": a[0] or b[0], "err": a[1] or b[1]}}
        lines.append(ln)
        if a[2] and b[2]:
            jobs += [(a[2], ("settings", "classes")), (b[2], ("classes",))]
            slots.append(ln)
    vs = dc.project_all(jobs)
    for k, ln in enumerate(slots):
        ln["obs"]["settings"] = vs[2 * k]["settings"]
        ln["obs"]["with"] = vs[2 * k]["digests"]
        ln["obs"]["without"] = vs[2 * k + 1]["digests"]
    for p, _ in jobs:
        os.remove(p)
    return lines


def shows():
    """every combination of the slide show settings"""
    o = [[], [False], [True]]
    for ty, lo, nn, na, ti, me in itertools.product([[], ["Speaker"], ["Kiosk"], ["Browsed"]], o, o, o, o, o):
        yield {"type": ty, "loop": lo, "nonarr": nn, "noanim": na, "timings": ti, "media": me, "pen": [], "range": []}


def run(chk):
    q = chk.quick
    es = chk.model("DeckMC", "SettingsMC.cfg")
    cases = dm.decks(chk, es, 150 if q else 3000, ENTRIES, "s")
    sh = list(shows())
    for i, x in enumerate(chk.rng.sample(sh, 60) if q else sh):
        cases.append({"id": "show-%d" % i, "kind": "deck", "title": "t", "settings": {"show": [x]}, "entries": [ENTRIES[i % 4]], "slides": [dm.S(title="t")]})
    for i in range(250 if q else 5000):
        cases.append(deckgen.deck(chk.rng, "r-%d" % i, entries=[ENTRIES[i % 4]], settings=deckgen.settings(chk.rng), n=chk.rng.choice([1, 2, 3])))
    chk.assumptions += ["an absent attribute of p:showPr has its schema default (loop false, showNarration false, showAnimation true, useTimings true)",
                        "custom slide lists and the printer preferences that are deliberately not written (colour mode, scaling, hidden slides) are not judged",
                        "a signer's e-mail, organisation and title have no place in the signature part and are not judged"]
    for b in dc.batches(cases, 300):
        bare = [dict(c, id=c["id"] + "-bare", settings={}) for c in b]
        chk.judge("DeckTrace", "DeckTrace.cfg", lines_of(b, dc.generate(chk, b + bare)))
    return chk.finish({c["id"]: c for c in cases})
