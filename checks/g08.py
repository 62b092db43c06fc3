from lib import deckgen
from checks import deckmodels as dm
from checks.deckcommon import run_views

ENTRIES = ["mem", "lazy", "writer"]


def run(chk):
    em = chk.model("ContentMC", "BulletsMC.cfg" if chk.quick else "BulletsMC_thorough.cfg")
    sl = dm.bullet_slides(em)
    if not chk.quick:
        sl = chk.rng.sample(sl, min(len(sl), 12000))
    cases = dm.pack("t", sl, 12, ENTRIES)
    for t in sorted(deckgen.SHAPES):
        pass
    shapes = [dm.rect(ty=t, x=i, y=2 * i, w=i + 1, h=i + 2) for i, t in enumerate(sorted(deckgen.SHAPES))]
    cases += dm.pack("k", [dm.S(title="k", shapes=shapes[i:i + 12]) for i in range(0, len(shapes), 12)], 3, ENTRIES)
    for i in range(250 if chk.quick else 6000):
        cases.append(deckgen.deck(chk.rng, "r-%d" % i, {"bullets", "style", "shapes", "links", "cxns", "images", "codes"}, entries=[ENTRIES[i % 3]], n=chk.rng.choice([1, 2, 4])))
    chk.assumptions += ["only shape kinds whose preset geometry is defined by the standard", "the formatting of an empty text is not judged"]
    cases += deckgen.large(chk.rng, "l-", ENTRIES, {"bullets", "style", "shapes", "links", "cxns", "images", "codes"})
    return run_views(chk, cases, ["G08"], "slides", ("slides",))
