from lib import deckgen
from checks import deckmodels as dm
from checks.deckcommon import run_views

ENTRIES = ["mem", "lazy", "writer", "lazy2"]


def run(chk):
    em = chk.model("DeckMC", "DeckMC.cfg" if chk.quick else "DeckMC_thorough.cfg", timeout=850)
    em = [e for e in em if any(s["pics"] for s in e["slides"])]
    cases = dm.decks(chk, em, 300 if chk.quick else 6000, ENTRIES, "m")
    for i in range(250 if chk.quick else 5000):
        cases.append(deckgen.deck(chk.rng, "r-%d" % i, {"images", "notes", "charts"}, entries=[ENTRIES[i % 4]], n=chk.rng.choice([1, 2, 3, 5, 8, 12])))
    cases += deckgen.large(chk.rng, "l-", ENTRIES, {"images", "notes", "charts"})
    return run_views(chk, cases, ["G05"], "slides", ("slides",))
