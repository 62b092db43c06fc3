from lib import deckgen
from checks import deckmodels as dm
from checks.deckcommon import run_views

ENTRIES = ["mem", "lazy", "writer"]


def run(chk):
    em = chk.model("ContentMC", "ChartMC.cfg" if chk.quick else "ChartMC_thorough.cfg")
    cases = dm.pack("t", dm.chart_slides(em), 2, ENTRIES)
    for i in range(250 if chk.quick else 6000):
        cases.append(deckgen.deck(chk.rng, "r-%d" % i, {"charts"}, entries=[ENTRIES[i % 3]], n=chk.rng.choice([1, 2, 3])))
    chk.assumptions += ["numbers are finite; a value is compared as the double it denotes", "scatter and bubble charts have numeric x values 1, 2, 3, ... and no category list"]
    cases += deckgen.large(chk.rng, "l-", ENTRIES, {"charts"})
    return run_views(chk, cases, ["G06"], "slides", ("slides",))
