from checks import damagecommon


def run(chk):
    q = chk.quick
    chk.assumptions += ["generated decks; embedded fonts cannot be found again when the presentation's relationships are lost",
                        "a content type counts as lost when neither an override nor a default gives the part one"]
    return damagecommon.run(chk, "repair", 400 if q else 6000, 250 if q else 6000)
