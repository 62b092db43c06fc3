from lib import deckgen
from checks import deckmodels as dm
from checks.deckcommon import run_views

ENTRIES = ["mem", "lazy", "writer", "lazy2", "api"]


def run(chk):
    em = chk.model("DeckMC", "DeckMC.cfg" if chk.quick else "DeckMC_thorough.cfg", timeout=850)
    cases = dm.decks(chk, em, 250 if chk.quick else 6000, ENTRIES, "m")
    want = {"shapes", "links", "images", "charts", "notes", "ink", "bullets"}
    for i in range(200 if chk.quick else 5000):
        cases.append(deckgen.deck(chk.rng, "r-%d" % i, want, entries=[ENTRIES[i % 5]], n=chk.rng.choice([1, 2, 3, 5, 8])))
    cases += deckgen.large(chk.rng, "l-", ENTRIES, want)
    return run_views(chk, cases, ["G03"], "slides", ("slides",))
