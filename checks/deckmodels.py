"""Concrete decks for the behaviours emitted by DeckMC and ContentMC."""
from lib import deckgen

TOKS = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "apos": "'", "sp": " ", "ent": "&lt;", "cdata": "]]>", "ascii": "a1", "uni": "é日", "astral": "😀", "dollar": "${x}{{0}}"}


def settings_for(opts):
    s = {}
    if "theme" in opts:
        s["theme"] = [{"preset": "", "name": "M & <1>", "colors": [["%06X" % (111 * i) for i in range(12)]], "major": ["Georgia"], "minor": ["A & B"]}]
    if "show" in opts:
        s["show"] = [{"type": ["Kiosk"], "loop": [True], "nonarr": [True], "noanim": [], "timings": [False], "media": [], "pen": ["00ff00"], "range": [{"k": "range", "a": 1, "b": 1, "ids": []}]}]
    if "handout" in opts or "print" in opts:
        s["print"] = [{"what": ["Handouts"] if "handout" in opts else ["Notes"], "lay": ["SlidesPerPage6"], "header": ["H & <1>"] if "print" in opts else [], "footer": ["F"] if "print" in opts else [],
                       "date": [True], "nums": [], "frame": [True]}]
    if "fonts" in opts:
        s["fonts"] = [[{"face": "Fira", "style": "Bold", "data": "0011", "rid": "rId2", "charset": "", "panose": [], "pitch": []},
                       {"face": "Zen", "style": "Regular", "data": "22", "rid": "rId1", "charset": "Greek", "panose": [], "pitch": []}]]
    if "sig" in opts:
        s["sig"] = [{"name": "N & <x>", "email": [], "org": [], "stitle": [], "hash": ["Sha512"], "date": ["2024-02-29T12:34:56Z"], "commit": [], "comments": ["c"]}]
    return s


def decks(chk, em, n, entries, prefix="m", rotate=True):
    """a sample of model decks, as many as n; always the shortest ones"""
    em = sorted(em, key=lambda e: (len(str(e)), str(e)))
    pick = em if len(em) <= n else em[:n // 4] + chk.rng.sample(em[n // 4:], n - n // 4)
    out = []
    for i, e in enumerate(pick):
        c = deckgen.from_model(e["slides"], "%s-%d" % (prefix, i), [entries[i % len(entries)]] if rotate else entries)
        c["settings"] = settings_for(e["opts"])
        out.append(c)
    return out


def pack(prefix, slides, per, entries, title="packed"):
    out = []
    for i in range(0, len(slides), per):
        out.append({"id": "%s-%d" % (prefix, i), "kind": "deck", "title": title, "settings": {}, "entries": [entries[(i // per) % len(entries)]], "slides": slides[i:i + per]})
    return out


def S(**k):
    return dict(deckgen.PLAIN, **k)


def cell(t, **k):
    return dict({"t": t, "b": False, "i": False, "u": False, "sz": [], "tc": [], "bg": [], "font": [], "al": [], "va": [], "gs": [], "rs": [], "hm": False, "vm": False}, **k)


def table(rows, **k):
    return dict({"x": 1, "y": 2, "cols": [1000 + i for i in range(len(rows[0]))], "rows": [{"h": [], "cells": [cell(t) if isinstance(t, str) else t for t in r]} for r in rows]}, **k)


def rect(**k):
    return dict({"ty": "Rectangle", "x": 1, "y": 2, "w": 3, "h": 4, "rot": [], "id": [], "fill": [], "ln": [], "t": [], "link": []}, **k)


def mklink(k="url", v="https://x.example/", n=1, **kw):
    return dict({"k": k, "v": v, "n": n, "subj": [], "tip": [], "hl": []}, **kw)


def mkchart(ty="Bar", title="C", cats=("a", "b"), series=(("s", ("1", "2")),), **k):
    return dict({"title": title, "ty": ty, "cats": list(cats), "series": [{"name": n, "vals": list(v)} for n, v in series], "x": 1, "y": 2, "w": 3, "h": 4}, **k)


def mkimage(data=b"img", fmt="PNG", **k):
    return dict({"src": "bytes", "name": "", "data": data.hex(), "fmt": fmt, "w": 1, "h": 2, "x": 3, "y": 4, "alt": [], "crop": [], "fx": []}, **k)


def bullet(m, t, st="Bullet", lvl=0, f=()):
    return {"m": m, "t": t, "st": {"k": st, "c": ""}, "lvl": lvl, "f": list(f)}


def text_slides(em):
    slides, titles = [], []
    for e in sorted(em, key=str):
        t = "".join(TOKS[x] for x in e["toks"])
        p = e["place"]
        if p in ("shape", "url", "tip", "label") and not t:
            continue
        if p == "deck":
            titles.append(t)
        elif p == "title":
            slides.append(S(title=t))
        elif p == "bullet":
            slides.append(S(title="b", b=[bullet("add", "first"), bullet("add", t), bullet("add", "last")]))
        elif p == "sub":
            slides.append(S(title="b", layout="TwoColumn", b=[bullet("add", "first"), bullet("sub", t), bullet("num", "last")]))
        elif p == "cell":
            slides.append(S(title="t", table=[table([["a", t], [t + "x", "d"]])]))
        elif p == "shape":
            slides.append(S(title="s", shapes=[rect(t=[t])]))
        elif p == "code":
            slides.append(S(title="c", codes=[{"t": "x" + t + "\n" + t + "y", "lang": "rust", "x": 0, "y": 0, "w": 10, "h": 10}]))
        elif p == "notes":
            slides.append(S(title="n", notes=[t]))
        elif p == "chart":
            slides.append(S(title="h", charts=[mkchart(title=t), mkchart(ty="Pie", title=t), mkchart(ty="Scatter", title=t)]))
        elif p == "series":
            slides.append(S(title="h", charts=[mkchart(ty=k, series=((t, ("1", "2")), (t + "2", ("3", "4")))) for k in ("Bar", "Line", "Bubble", "Combo", "Radar")]))
        elif p == "category":
            slides.append(S(title="h", charts=[mkchart(ty=k, cats=(t, "z" + t)) for k in ("Bar", "Pie", "Area", "StockHLC", "Combo")]))
        elif p == "alt":
            slides.append(S(title="i", images=[mkimage(alt=[t])]))
        elif p == "url":
            slides.append(S(title="u", shapes=[rect(link=[mklink(v="https://x.example/" + t)])]))
        elif p == "tip":
            slides.append(S(title="u", shapes=[rect(link=[mklink(tip=[t])]), rect(link=[mklink(k="slide", v="", tip=[t])])]))
        elif p == "label":
            slides.append(S(title="l", cxns=[{"ty": "Straight", "x1": 1, "y1": 2, "x2": 3, "y2": 4, "ln": [], "sa": [], "ea": [], "asz": [], "st": [], "en": [], "label": [t]}]))
    return slides, titles


def chart_slides(em):
    chs = []
    for e in sorted(em, key=str):
        cats = ["c%d" % i for i in range(e["np"])]
        chs.append(mkchart(ty=e["ty"], title="%s %d %d" % (e["ty"], e["ns"], e["np"]), cats=cats,
                           series=[("s%d" % i, [repr((-1) ** j * (i * 10 + j + 0.25)) for j in range(e["np"])]) for i in range(e["ns"])], x=e["ns"], y=e["np"], w=5, h=6))
    return [S(title="charts", charts=chs[i:i + 6]) for i in range(0, len(chs), 6)]


def table_slides(em):
    out = []
    lays = ["TitleAndContent", "TitleOnly", "TwoColumn", "Blank"]
    for k, e in enumerate(sorted(em, key=str)):
        g = [[cell("r%dc%d" % (r, c)) for c in range(e["cols"])] for r in range(e["rows"])]
        for a in e["regions"]:
            for r in range(a["row"], a["row"] + a["rs"]):
                for c in range(a["col"], a["col"] + a["cs"]):
                    if (r, c) == (a["row"], a["col"]):
                        g[r][c]["gs"] = [a["cs"]] if a["cs"] > 1 or k % 2 else []
                        g[r][c]["rs"] = [a["rs"]] if a["rs"] > 1 or k % 2 else []
                    else:
                        g[r][c].update(t="", hm=c > a["col"], vm=r > a["row"])
                        if k % 3 == 0 and g[r][c]["hm"]:
                            g[r][c]["vm"] = False      # marked one way only
        t = table(g)
        t["rows"][0]["h"] = [k % 7 + 1]
        out.append(S(title="t", layout=lays[k % 4], table=[t]))
    return out


def bullet_slides(em):
    out = []
    st = deckgen.STYLES
    for k, e in enumerate(sorted(em, key=str)):
        fm = {"b": k % 2 == 0, "i": k % 3 == 0, "u": k % 5 == 0, "s": k % 7 == 0, "scr": [[], ["sub"], ["sup"]][k % 3], "color": ["00AA11"] if k % 4 == 0 else [], "hl": [], "sz": [9] if k % 3 else [], "font": []}
        b = [bullet(o, "%s%d" % (o, i), st[(k + i) % 7], (k + i) % 4, [fm] if (k + i) % 2 else []) for i, o in enumerate(e["ops"])]
        out.append(S(title="b", layout=e["layout"], b=b, cb=[True] if k % 4 == 1 else [], ci=[True] if k % 6 == 1 else [], cu=[True] if k % 5 == 1 else [], csz=[[], [15], [-1]][k % 3], cc=["112233"] if k % 3 == 1 else []))
    return out
