from lib import deckgen
from checks import deckmodels as dm
from checks.deckcommon import run_views

ENTRIES = ["mem", "writer", "lazy", "file", "lazy2", "api", "content"]


def run(chk):
    em = chk.model("DeckMC", "DeckMC.cfg" if chk.quick else "DeckMC_thorough.cfg", timeout=850)
    es = chk.model("DeckMC", "SettingsMC.cfg")
    q = chk.quick
    cases = dm.decks(chk, em, 120 if q else 4000, ENTRIES, "m") + dm.decks(chk, es, 120 if q else 4000, ENTRIES[:6], "s")
    for i in range(150 if q else 4000):
        en = (ENTRIES + ["template", "lazy", "writer"])[i % 10]
        st = {} if en == "content" else deckgen.settings(chk.rng)
        if en == "template" and chk.rng.random() < .5:
            st["ttheme"] = deckgen.settings(chk.rng, ["theme"])["theme"]
        cases.append(deckgen.deck(chk.rng, "r-%d" % i, entries=[en], settings=st, n=chk.rng.choice([1, 2, 3, 5, 12])))
    for n in (1, 2, 3, 9, 10, 11, 30):
        cases.append({"id": "plain-%d" % n, "kind": "deck", "title": "P & <%d>" % n, "settings": {}, "entries": ["plain", "plainw"], "slides": [dm.S(title="x")] * n})
    chk.assumptions += ["packages are read with Python's zipfile and ElementTree; content-type matching follows the OPC rules (overrides, then defaults by extension)",
                        "template decks are presentations written by this library"]
    cases += deckgen.large(chk.rng, "l-", ENTRIES[:6], deckgen.ALL)
    return run_views(chk, cases, ["G01"], "pkg", ("pkg",))
