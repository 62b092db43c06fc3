from lib import deckgen
from checks import deckmodels as dm
from checks.deckcommon import run_views

ENTRIES = ["mem", "lazy", "writer", "content"]


def run(chk):
    em = chk.model("ContentMC", "TextMC.cfg" if chk.quick else "TextMC_thorough.cfg")
    slides, titles = dm.text_slides(em)
    cases = dm.pack("t", slides, 15, ENTRIES)
    for i, t in enumerate(titles):
        cases.append({"id": "d-%d" % i, "kind": "deck", "title": t, "settings": {}, "entries": [ENTRIES[i % 4]], "slides": [dm.S(title=t)]})
    for i in range(200 if chk.quick else 5000):
        cases.append(deckgen.blanken(chk.rng, deckgen.deck(chk.rng, "r-%d" % i, entries=[ENTRIES[i % 4]])))
    chk.assumptions += ["texts hold no control characters; line breaks only in code blocks", "an empty line of a code block may be written as one blank (its line height)",
                        "layouts without a bullet area (title only, section header, blank, ...) show no bullets and the blank layout no title"]
    cases += deckgen.large(chk.rng, "l-", ENTRIES)
    table = {"id": "kf-table-hides-bullets", "kind": "deck", "title": "k", "settings": {}, "entries": ["mem"], "slides": [dm.S(title="t", layout="TitleAndContent", b=[dm.bullet("add", "lost")], table=[dm.table([["a"]])])]}
    return run_views(chk, cases + [table], ["G02"], "slides", ("slides",), "md")
