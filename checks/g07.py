from lib import deckgen
from checks import deckmodels as dm
from checks.deckcommon import run_views

ENTRIES = ["mem", "lazy", "writer"]


def run(chk):
    em = chk.model("ContentMC", "TableMC.cfg" if chk.quick else "TableMC_thorough.cfg")
    cases = dm.pack("t", dm.table_slides(em), 8, ENTRIES)
    for i in range(250 if chk.quick else 6000):
        cases.append(deckgen.blanken(chk.rng, deckgen.deck(chk.rng, "r-%d" % i, {"table", "style"}, entries=[ENTRIES[i % 3]], n=chk.rng.choice([2, 4]))))
    chk.assumptions += ["the formatting of a cell without text is not judged (it has no text run)"]
    cases += deckgen.large(chk.rng, "l-", ENTRIES, {"table", "style"})
    return run_views(chk, cases, ["G07"], "slides", ("slides",))
