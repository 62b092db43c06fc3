from checks import damagecommon


def run(chk):
    q = chk.quick
    chk.assumptions += ["generated decks, written in equivalent ways, and damages of them; a content type counts as lost when neither an override nor a default gives the part one"]
    return damagecommon.run(chk, "validate", 400 if q else 6000, 300 if q else 6000, others=True)
