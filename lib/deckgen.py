"""Random decks (harness JSON) and their abstraction to the specification's deck."""
from .vlib import tok
from .project import sha, canon

LAYOUTS = ["TitleOnly", "CenteredTitle", "TitleAndContent", "TitleAndBigContent", "TwoColumn", "Blank", "SectionHeader"]
STYLES = ["Bullet", "Number", "LetterLower", "LetterUpper", "RomanLower", "RomanUpper", "None"]
TRANS = ["None", "Fade", "Cut", "Push", "Wipe", "Split", "Reveal", "Cover", "Zoom"]
CHARTS = ["Bar", "BarHorizontal", "BarStacked", "BarStacked100", "Line", "LineMarkers", "LineStacked", "Pie", "Doughnut", "Area", "AreaStacked", "AreaStacked100",
          "Scatter", "ScatterLines", "ScatterSmooth", "Bubble", "Radar", "RadarFilled", "StockHLC", "StockOHLC", "Combo"]
# shape kinds whose preset geometry name is defined by the standard
SHAPES = {"Rectangle": "rect", "RoundedRectangle": "roundRect", "Ellipse": "ellipse", "Circle": "ellipse", "Triangle": "triangle", "RightTriangle": "rtTriangle", "Diamond": "diamond",
          "Pentagon": "pentagon", "Hexagon": "hexagon", "Octagon": "octagon", "RightArrow": "rightArrow", "LeftArrow": "leftArrow", "UpArrow": "upArrow", "DownArrow": "downArrow",
          "LeftRightArrow": "leftRightArrow", "UpDownArrow": "upDownArrow", "BentArrow": "bentArrow", "UTurnArrow": "uturnArrow", "Star4": "star4", "Star5": "star5", "Star6": "star6",
          "Star8": "star8", "Ribbon": "ribbon2", "Wave": "wave", "WedgeRectCallout": "wedgeRectCallout", "WedgeEllipseCallout": "wedgeEllipseCallout", "CloudCallout": "cloudCallout",
          "FlowChartProcess": "flowChartProcess", "FlowChartDecision": "flowChartDecision", "FlowChartTerminator": "flowChartTerminator", "FlowChartDocument": "flowChartDocument",
          "FlowChartPredefinedProcess": "flowChartPredefinedProcess", "FlowChartInternalStorage": "flowChartInternalStorage", "FlowChartManualInput": "flowChartManualInput",
          "FlowChartManualOperation": "flowChartManualOperation", "FlowChartConnector": "flowChartConnector", "FlowChartSort": "flowChartSort", "FlowChartExtract": "flowChartExtract",
          "FlowChartMerge": "flowChartMerge", "FlowChartDelay": "flowChartDelay", "FlowChartMagneticTape": "flowChartMagneticTape", "FlowChartMagneticDisk": "flowChartMagneticDisk",
          "FlowChartMagneticDrum": "flowChartMagneticDrum", "FlowChartDisplay": "flowChartDisplay", "FlowChartPreparation": "flowChartPreparation", "CurvedRightArrow": "curvedRightArrow",
          "CurvedLeftArrow": "curvedLeftArrow", "CurvedUpArrow": "curvedUpArrow", "CurvedDownArrow": "curvedDownArrow", "StripedRightArrow": "stripedRightArrow", "NotchedRightArrow": "notchedRightArrow",
          "ChevronArrow": "chevron", "RightArrowCallout": "rightArrowCallout", "LeftArrowCallout": "leftArrowCallout", "UpArrowCallout": "upArrowCallout", "DownArrowCallout": "downArrowCallout",
          "LeftRightArrowCallout": "leftRightArrowCallout", "UpDownArrowCallout": "upDownArrowCallout", "QuadArrow": "quadArrow", "LeftRightUpArrow": "leftRightUpArrow", "CircularArrow": "circularArrow",
          "Parallelogram": "parallelogram", "Trapezoid": "trapezoid", "Cube": "cube", "Can": "can", "Bevel": "bevel", "Donut": "donut", "NoSmoking": "noSmoking", "BlockArc": "blockArc",
          "FoldedCorner": "foldedCorner", "SmileyFace": "smileyFace", "Arc": "arc", "Chord": "chord", "Pie": "pie", "Teardrop": "teardrop", "Plaque": "plaque", "Star10": "star10", "Star12": "star12",
          "Star16": "star16", "Star24": "star24", "Star32": "star32", "ActionButtonBlank": "actionButtonBlank", "ActionButtonHome": "actionButtonHome", "ActionButtonHelp": "actionButtonHelp",
          "ActionButtonInformation": "actionButtonInformation", "ActionButtonForwardNext": "actionButtonForwardNext", "ActionButtonBackPrevious": "actionButtonBackPrevious",
          "ActionButtonBeginning": "actionButtonBeginning", "ActionButtonEnd": "actionButtonEnd", "ActionButtonReturn": "actionButtonReturn", "ActionButtonDocument": "actionButtonDocument",
          "ActionButtonSound": "actionButtonSound", "ActionButtonMovie": "actionButtonMovie", "Heart": "heart", "Lightning": "lightningBolt", "Sun": "sun", "Moon": "moon", "Cloud": "cloud",
          "Plus": "mathPlus", "Minus": "mathMinus"}
METAS = ["k\x01v", "w\ufffe", "<b>", "&amp;", "\"q\"", "it's", "a & b", "x<y>z", "  two  ", "é", "日本", "😀", "%20", "{x}", "]]>", "\\", "#", "a/b", "--", "&#65;", "$1", "\u00a0", "${t}", "<a:t>", "\u200b", "{{0}}"]
WORDS = ["alpha", "Beta 2", "gamma delta", "Q3 results", "x", "Plan", "The end", "1. one", "Total"]
GOODCOL = ["FF0000", "00b050", "#1F4E79", "#abcdef", "123456", "0000FF", "FFFFFF", "7F7F7F"]


def col(rng):
    return rng.choice(GOODCOL) if rng.random() < 0.7 else "%06X" % rng.randrange(1 << 24)


def ncol(c):
    return tok(c.strip().lstrip("#").upper())


def text(rng, plain=0.35, empty=0.0):
    if rng.random() < empty:
        return ""
    if rng.random() < plain:
        return rng.choice(WORDS) + str(rng.randint(0, 99))
    s = "".join(rng.choice(METAS + ["ab", "Zz", " ", "7"]) for _ in range(rng.randint(1, 4)))
    return s if s.strip() else s + "t"


BLANKS = [" ", "  ", "\u00a0", "\u3000 "]


def blanken(rng, case, p=.07, titles=False):
    """some texts become white space only: they are texts nonetheless"""
    b = lambda t: rng.choice(BLANKS) if rng.random() < p else t
    for s in case["slides"]:
        if titles and rng.random() < .3:
            s["title"] = rng.choice(BLANKS)
        for x in s["b"] + s["codes"]:
            x["t"] = b(x["t"])
        for x in s["table"]:
            for r in x["rows"]:
                for c in r["cells"]:
                    c["t"] = c["t"] if c["hm"] or c["vm"] else b(c["t"])
        for x in s["shapes"]:
            x["t"] = [b(t) for t in x["t"]]
        for x in s["cxns"]:
            x["label"] = [b(t) for t in x["label"]]
        for x in s["charts"]:
            x["title"] = b(x["title"])
            x["cats"] = [b(t) for t in x["cats"]]
            for y in x["series"]:
                y["name"] = b(y["name"])
        s["notes"] = [b(t) for t in s["notes"]]
    return case


def attr_text(rng):
    return text(rng)


def coord(rng, big=False):
    return rng.choice([0, 1, 457200, 914400, 1828800, 12345, 999999, 3000001]) if rng.random() < 0.6 else rng.randint(0, 9000000)


def opt(rng, p, f):
    return [f()] if rng.random() < p else []


def bool_(rng):
    return rng.random() < 0.5


def bstyle(rng):
    if rng.random() < 0.15:
        return {"k": "Custom", "c": rng.choice("→✓*&<>\"-o★'")}
    return {"k": rng.choice(STYLES), "c": ""}


def bfmt(rng):
    f = {"b": bool_(rng), "i": bool_(rng), "u": bool_(rng), "s": rng.random() < 0.3, "scr": rng.choice([[], [], [], ["sub"], ["sup"], ["sub", "sup"], ["sup", "sub"]]),
         "color": opt(rng, .4, lambda: col(rng)), "hl": opt(rng, .3, lambda: col(rng)), "sz": opt(rng, .4, lambda: rng.choice([8, 12, 18, 24, 40])),
         "font": opt(rng, .3, lambda: rng.choice(["Arial", "Courier New", "A & B", "Fira <Code>", "明朝"]))}
    return f


def bullet_ops(rng, n, rich=True):
    out = []
    for _ in range(n):
        m = rng.choice(["add", "add", "add", "style", "styled", "num", "let", "sub", "raw", "raw"] if rich else ["add", "add", "num", "sub"])
        out.append({"m": m, "t": text(rng), "st": bstyle(rng), "lvl": rng.choice([0, 0, 1, 2, 3, 8, 8, 9, 300]), "f": opt(rng, .8, lambda: bfmt(rng))})
    if rich and n and rng.random() < 0.08:      # only the plain string list
        out = [{"m": "content", "t": text(rng), "st": bstyle(rng), "lvl": 0, "f": []} for _ in range(n)]
    if rich and n > 1 and rng.random() < .1:
        out.append({"m": "add", "t": out[0]["t"], "st": bstyle(rng), "lvl": 0, "f": []})
    return out


def cell(rng, rich=True):
    c = {"t": text(rng, empty=.1), "b": False, "i": False, "u": False, "sz": [], "tc": [], "bg": [], "font": [], "al": [], "va": [], "gs": [], "rs": [], "hm": False, "vm": False}
    if rich:
        c.update(b=rng.random() < .3, i=rng.random() < .3, u=rng.random() < .3, sz=opt(rng, .3, lambda: rng.choice([8, 10, 18, 32])), tc=opt(rng, .3, lambda: col(rng)),
                 bg=opt(rng, .3, lambda: col(rng)), font=opt(rng, .2, lambda: rng.choice(["Arial", "A & B", "明朝"])), al=opt(rng, .4, lambda: rng.choice(["Left", "Center", "Right", "Justify"])),
                 va=opt(rng, .4, lambda: rng.choice(["Top", "Middle", "Bottom"])))
    return c


def table(rng, rich=True, spans=True, maxr=5, maxc=5):
    nr, nc = rng.randint(1, maxr), rng.randint(1, maxc)
    rows = [[cell(rng, rich) for _ in range(nc)] for _ in range(nr)]
    if spans:
        used = set()
        for _ in range(rng.randint(0, 3)):
            r, c = rng.randrange(nr), rng.randrange(nc)
            h, w = rng.randint(1, nr - r), rng.randint(1, nc - c)
            reg = {(a, b) for a in range(r, r + h) for b in range(c, c + w)}
            if h * w == 1 or reg & used:
                continue
            used |= reg
            rows[r][c]["gs"] = [w] if w > 1 else []
            rows[r][c]["rs"] = [h] if h > 1 else []
            for a, b in reg:
                if (a, b) == (r, c):
                    continue
                if b > c:
                    rows[a][b]["hm"] = True
                if a > r:
                    rows[a][b]["vm"] = True
                rows[a][b]["t"] = ""
    return {"x": coord(rng), "y": coord(rng), "cols": [rng.randint(1, 3000000) for _ in range(nc)],
            "rows": [{"h": opt(rng, .6, lambda: rng.randint(1, 900000)), "cells": r} for r in rows]}


def shape(rng, nslides, ids, links=True, rich=True):
    t = text(rng)
    if t.startswith("["):
        t = "(" + t
    s = {"ty": rng.choice(sorted(SHAPES)), "x": coord(rng), "y": coord(rng), "w": coord(rng), "h": coord(rng), "rot": [], "id": [], "fill": [], "ln": [], "t": opt(rng, .6, lambda: t), "link": []}
    if rich:
        s["rot"] = opt(rng, .4, lambda: rng.choice([0, 45, 90, 359, 360, -30, 12, 720, -360]))
        for _ in range(rng.choice([0, 1, 1, 2])):
            if rng.random() < .6:
                s["fill"].append({"k": "solid", "c": col(rng), "tr": opt(rng, .5, lambda: rng.choice([0, 1, 50, 99, 100, 250]))})
            else:
                s["fill"].append({"k": "grad", "dir": rng.choice(["Horizontal", "Vertical", "DiagonalDown", "DiagonalUp", "Angle"]), "ang": rng.choice([0, 30, 90, 359]),
                                  "stops": [{"c": col(rng), "p": rng.choice([0, 25, 50, 75, 100]), "tr": opt(rng, .3, lambda: rng.choice([0, 20, 100]))} for _ in range(rng.randint(2, 4))]})
        s["ln"] = opt(rng, .5, lambda: {"c": col(rng), "w": rng.choice([0, 9525, 12700, 25400, 1])})
    if rng.random() < .2:
        i = rng.randint(10, 300)
        if i not in ids:
            ids.add(i)
            s["id"] = [i]
    if links and rng.random() < .5:
        s["link"] = [link(rng, nslides)]
    return s


def link(rng, nslides):
    k = rng.choice(["url", "url", "slide", "email", "file", "FirstSlide", "LastSlide", "NextSlide", "PreviousSlide", "EndShow"])
    v = {"url": rng.choice(["https://a.example/x?y=1&z=<2>", "http://b.example/\"q\"", "https://c.example/é", "slide2.xml", "#frag"]) + str(rng.randint(0, 9)),
         "email": rng.choice(["a@b.c", "x+y@é.org"]), "file": rng.choice(["C:\\dir\\a & b.txt", "/tmp/x.pdf", "rel/p.doc"])}.get(k, "")
    return {"k": k, "v": v, "n": rng.randint(1, nslides), "subj": opt(rng, .5, lambda: rng.choice(["Hi", "a & b", "re: <x>"])), "tip": opt(rng, .5, lambda: text(rng)), "hl": opt(rng, .4, lambda: bool_(rng))}


PNG = bytes.fromhex("89504e470d0a1a0a0000000d4948445200000001000000010802000000907753de0000000c4944415408d763f8cfc0000000030001")


def image(rng, pool):
    fmt, data = rng.choice(pool)
    src = rng.choice(["bytes", "bytes", "base64", "file", "named", "missing"] if rng.random() < .6 else ["bytes"])
    name = ""
    if src == "missing":
        name = "/nonexistent/q%d.png" % rng.randint(0, 9)
    elif src == "file":
        name = "pic%d.%s" % (rng.randint(0, 10 ** 9), rng.choice([fmt.lower(), fmt]))
    elif src == "named":
        name = rng.choice(["pic & <1>", "p\"q\"", "a b", "same"]) + "." + fmt.lower()
    return {"src": src, "name": name, "data": data.hex(), "fmt": rng.choice([fmt, fmt.lower()]) if src != "file" else fmt, "w": coord(rng), "h": coord(rng), "x": coord(rng), "y": coord(rng),
            "alt": opt(rng, .6, lambda: attr_text(rng)), "crop": opt(rng, .3, lambda: [rng.choice([0, 10, 25, 33]) for _ in range(4)]),
            "fx": rng.sample(["Shadow", "Reflection", "Glow", "SoftEdges", "InnerShadow", "Blur"], rng.choice([0, 0, 1, 2, 3]))}


def pool(rng, n=4):
    """payloads: some identical bytes under different types, some equal prefixes"""
    base = [bytes([rng.randrange(256) for _ in range(rng.choice([1, 3, 20, 40]))]) for _ in range(n)]
    base.append(base[0] + b"\0")
    base.append(base[0][:-1] + bytes([base[0][-1] ^ 1]))
    base.append(base[1][::-1])
    if rng.random() < .3:       # long ones that differ in one place, or in the order of two bytes
        n = rng.choice([300, 1100, 2100, 5000, 9000, 40000])
        long = (bytes(rng.randrange(256) for _ in range(300)) * (n // 300 + 1))[:n]
        k = rng.choice([0, 10, n // 2, n - 2, rng.randrange(n - 1)])
        base = [base[0], long, long[:k] + bytes([long[k] ^ 1]) + long[k + 1:], long[:k] + long[k + 1:k + 2] + long[k:k + 1] + long[k + 2:]]
    base.append(PNG)
    out = [(f, b) for b in base for f in rng.sample(["PNG", "JPG", "GIF", "BMP", "TIFF", "SVG"], 2)]
    out += [("JPEG", b + b"jpeg") for b in base[:1]]
    out += [("PNG", b"")]
    return out


def chart(rng, ty=None, values=None):
    ty = ty or rng.choice(CHARTS)
    n = rng.choice([1, 2, 3, 5, 12])
    if rng.random() < .05:
        n = 0
    ns = rng.choice([1, 1, 2, 3, 4])
    if ty.startswith("Stock"):
        ns = rng.choice([3, 4])
    v = lambda: rng.choice([repr(rng.choice([0.0, 1.0, -1.0, 0.1, 1e-7, 123456789.125, -0.5, 1e15, 2.5e-3, 1 / 3, 1e21, 9007199254740993.0, 5e-324, 1.7976931348623157e308])), str(rng.randint(-1000, 1000)), repr(round(rng.uniform(-100, 100), 3)), repr(rng.uniform(-1, 1))])
    return {"title": text(rng), "ty": ty, "cats": [text(rng) for _ in range(n)], "series": [{"name": text(rng), "vals": [v() for _ in range(n)]} for _ in range(ns)],
            "x": coord(rng), "y": coord(rng), "w": coord(rng), "h": coord(rng)}


def cxn(rng):
    return {"ty": rng.choice(["Straight", "Elbow", "Curved"]), "x1": coord(rng), "y1": coord(rng), "x2": coord(rng), "y2": coord(rng),
            "ln": opt(rng, .5, lambda: {"c": col(rng), "w": rng.choice([9525, 12700, 31750]), "d": opt(rng, .7, lambda: rng.choice(["Solid", "Dash", "Dot", "DashDot", "DashDotDot", "LongDash", "LongDashDot"]))}),
            "sa": opt(rng, .4, lambda: rng.choice(["None", "Triangle", "Stealth", "Diamond", "Oval", "Open"])), "ea": opt(rng, .5, lambda: rng.choice(["None", "Triangle", "Stealth", "Diamond", "Oval", "Open"])),
            "asz": opt(rng, .4, lambda: rng.choice(["Small", "Medium", "Large"])),
            "st": opt(rng, .3, lambda: {"id": rng.randint(2, 40), "s": rng.choice(["Top", "Bottom", "Left", "Right", "TopLeft", "TopRight", "BottomLeft", "BottomRight", "Center"])}),
            "en": opt(rng, .3, lambda: {"id": rng.randint(2, 40), "s": rng.choice(["Top", "Bottom", "Left", "Right", "TopLeft", "TopRight", "BottomLeft", "BottomRight", "Center"])}),
            "label": opt(rng, .3, lambda: text(rng))}


def code(rng):
    ls = [rng.choice(["fn main() {", "    let x = \"<a & b>\";", "}", "", "\treturn 1", "  # é", "if a < b && c > d:", "日本"]) for _ in range(rng.randint(1, 5))]
    if not ls[-1]:
        ls[-1] = "end"
    if not ls[0]:
        ls[0] = "start"
    return {"t": "\n".join(ls), "lang": rng.choice(["rust", "python", "", "zz", "a&b"]), "x": coord(rng), "y": coord(rng), "w": 5000000, "h": 3000000}


def ink(rng):
    return [{"c": col(rng), "w": rng.choice([1, 2, 5, 100]), "tip": rng.choice(["Ball", "Flat"]), "op": rng.choice(["1.0", "0.5", "0.25"]),
             "pts": [[str(rng.randint(0, 5000)), str(rng.randint(0, 5000))] for _ in range(rng.randint(1, 4))]} for _ in range(rng.randint(1, 3))]


PLAIN = {"title": "", "layout": "", "trans": "", "b": [], "tsz": [], "csz": [], "tb": [], "cb": [], "ti": [], "ci": [], "tu": [], "cu": [], "tc": [], "cc": [], "table": [], "bulk": False,
         "shapes": [], "images": [], "cxns": [], "charts": [], "codes": [], "notes": [], "ink": []}


def slide(rng, n, want, pl):
    s = dict(PLAIN)
    s["title"] = text(rng, empty=.05)
    s["layout"] = rng.choice(LAYOUTS + ["", "TitleAndContent", "TwoColumn"])
    s["trans"] = rng.choice(TRANS + [""])
    s["bulk"] = bool_(rng)
    w = lambda k, p: k in want and rng.random() < p
    if w("bullets", .85):
        s["b"] = bullet_ops(rng, rng.randint(0, 6), "style" in want)
    if "style" in want:
        for k in ("tb", "cb", "ti", "ci", "tu", "cu"):
            s[k] = opt(rng, .3, lambda: bool_(rng))
        s["tsz"] = opt(rng, .3, lambda: rng.choice([-1, 12, 30, 66]))
        s["csz"] = opt(rng, .3, lambda: rng.choice([-1, 12, 20, 44]))
        s["tc"] = opt(rng, .3, lambda: col(rng))
        s["cc"] = opt(rng, .3, lambda: col(rng))
    if w("table", .5):
        s["table"] = [table(rng, "style" in want)]
    if w("shapes", .7):
        ids = set()
        s["shapes"] = [shape(rng, n, ids, "links" in want, "style" in want) for _ in range(rng.randint(0, 4))]
    if w("images", .7):
        s["images"] = [image(rng, pl) for _ in range(rng.randint(0, 4))]
    if w("cxns", .6):
        s["cxns"] = [cxn(rng) for _ in range(rng.randint(0, 4))]
    if w("charts", .5):
        s["charts"] = [chart(rng) for _ in range(rng.randint(0, 3))]
    if w("codes", .4):
        s["codes"] = [code(rng) for _ in range(rng.randint(0, 2))]
    if w("notes", .5):
        s["notes"] = [text(rng, empty=.1)]
    if w("ink", .3):
        s["ink"] = [ink(rng)]
    if s["table"] and s["layout"] in ("", "TitleAndContent") and s["b"]:
        s["b"] = []          # see known finding kf-table-hides-bullets
    return s


ALL = {"bullets", "style", "table", "shapes", "links", "images", "cxns", "charts", "codes", "notes", "ink"}


def deck(rng, cid, want=ALL, n=None, entries=("mem",), settings=None):
    n = n or rng.choice([1, 1, 2, 2, 3, 4, 6])
    pl = pool(rng)
    return {"id": cid, "kind": "deck", "title": text(rng, empty=.03), "settings": settings or {}, "entries": list(entries), "slides": [slide(rng, n, want, pl) for _ in range(n)]}


# ---------------------------------------------------------------- settings
def fonts(rng):
    out, used = [], set()
    for i in range(rng.randint(1, 4)):
        face, st = rng.choice(["Fira", "A & B", "Zen"]), rng.choice(["Regular", "Bold", "Italic", "BoldItalic"])
        if (face, st) in used:
            continue
        used.add((face, st))
        out.append({"face": face, "style": st, "data": bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))).hex(), "rid": rng.choice(["rId1", "rIdF%d" % i, "rId%d" % (900 + i), ""]),
                    "charset": "", "panose": [], "pitch": []})
    cs = {}
    for f in out:      # one set of face attributes per face
        q = cs.setdefault(f["face"], (rng.choice(["", "Ansi", "ShiftJis", "Greek"]), opt(rng, .4, lambda: "020B0604020202020204"), opt(rng, .4, lambda: rng.choice([2, 34, 49]))))
        f["charset"], f["panose"], f["pitch"] = q
    return out


def large(rng, prefix, entries, want=ALL):
    """decks beyond the usual sizes: many slides, crowded slides, wide tables and charts, long texts"""
    en = lambda k: [entries[k % len(entries)]]
    mk = lambda cid, k, slides: {"id": prefix + cid, "kind": "deck", "title": "large", "settings": {}, "entries": en(k), "slides": slides}
    pl = pool(rng, 8)
    one = lambda k, f: [f()] if k in want else []
    many = []
    for i in range(105):
        s = dict(PLAIN, title="Slide no. %d" % (i + 1), layout="TitleAndContent")
        if "bullets" in want:
            s["b"] = [{"m": "add", "t": "b%d" % i, "st": {"k": "Bullet", "c": ""}, "lvl": 0, "f": []}]
        k = i % 7
        if k == 0:
            s["images"] = one("images", lambda: image(rng, pl))
        elif k == 1:
            s["charts"] = one("charts", lambda: chart(rng))
        elif k in (2, 3):
            s["notes"] = one("notes", lambda: "notes %d" % (i + 1))
        elif k == 4 and "links" in want:
            s["shapes"] = one("shapes", lambda: shape(rng, 105, set(), True, "style" in want))
        elif k == 5 and "table" in want:
            s["b"], s["table"] = [], [table(rng, "style" in want)]
        many.append(s)
    out = [mk("many", 0, many)]
    crowd = []
    for i in range(2):
        s = dict(PLAIN, title="Crowded", layout="TwoColumn")
        if "bullets" in want:
            s["b"] = bullet_ops(rng, 40, "style" in want)
        if "shapes" in want:
            ids = set()
            s["shapes"] = [shape(rng, 2, ids, "links" in want, "style" in want) for _ in range(34)]
        if "images" in want:
            s["images"] = [image(rng, pl) for _ in range(33)]
        if "cxns" in want:
            s["cxns"] = [cxn(rng) for _ in range(31)]
        if "charts" in want:
            s["charts"] = [chart(rng) for _ in range(12)]
        if "codes" in want:
            s["codes"] = [code(rng) for _ in range(6)]
        crowd.append(s)
    out.append(mk("crowded", 1, crowd))
    long = lambda n: "".join(text(rng) for _ in range(n))
    wide = []
    for nr, nc in ((30, 28), (41, 3), (2, 60)):
        if "table" in want:
            t = table(rng, False, False, 1, 1)
            t["cols"] = [100000 + i for i in range(nc)]
            t["rows"] = [{"h": [], "cells": [dict(cell(rng, False), t="r%dc%d" % (i, j)) for j in range(nc)]} for i in range(nr)]
            wide.append(dict(PLAIN, title="Wide", layout="TitleAndContent", table=[t]))
    for ty, ns, nv in (("BarClustered", 30, 3), ("LineMarkers", 2, 150), ("ScatterLines", 28, 12), ("Pie", 1, 40)):
        if "charts" in want:
            c = chart(rng, ty if ty in CHARTS else None)
            c["cats"] = ["cat %d" % i for i in range(nv)]
            c["series"] = [{"name": "series %d" % i, "vals": [repr(i + j / 8) for j in range(nv)]} for i in range(ns)]
            wide.append(dict(PLAIN, title="Big chart", layout="TitleOnly", charts=[c]))
    for n in (20, 130, 1500):
        s = dict(PLAIN, title=long(n), layout="TitleAndContent")
        if "bullets" in want:
            s["b"] = [{"m": "add", "t": long(n), "st": {"k": "Bullet", "c": ""}, "lvl": 0, "f": []}]
        s["notes"] = one("notes", lambda: long(n))
        if "codes" in want:
            s["codes"] = [dict(code(rng), t=long(n).replace("\n", " "))]
        if "charts" in want:
            s["charts"] = [dict(chart(rng), title=long(n))]
        wide.append(s)
    out.append(mk("wide", 2, wide))
    return out


def settings(rng, keys=None):
    keys = keys if keys is not None else [k for k in ("theme", "show", "print", "fonts", "sig") if rng.random() < .5]
    s = {}
    if "theme" in keys:
        pre = rng.choice(["", "", "office", "corporate", "modern", "vibrant", "dark", "nature", "tech", "carbon"])
        s["theme"] = [{"preset": pre, "name": text(rng), "colors": opt(rng, .7 if not pre else .3, lambda: [col(rng).lstrip('#') for _ in range(12)]),
                       "major": opt(rng, .5, lambda: rng.choice(["Georgia", "A & B", "明朝"])), "minor": opt(rng, .5, lambda: rng.choice(["Verdana", "<x>", "é"]))}]
    if "show" in keys:
        o = lambda f: opt(rng, .4, f)
        s["show"] = [{"type": o(lambda: rng.choice(["Speaker", "Kiosk", "Browsed"])), "loop": o(lambda: bool_(rng)), "nonarr": o(lambda: bool_(rng)), "noanim": o(lambda: bool_(rng)),
                      "timings": o(lambda: bool_(rng)), "media": o(lambda: bool_(rng)), "pen": o(lambda: col(rng)),
                      "range": o(lambda: rng.choice([{"k": "all", "a": 0, "b": 0, "ids": []}, {"k": "range", "a": 1, "b": 3, "ids": []}, {"k": "range", "a": 2, "b": 2, "ids": []}]))}]
    if "print" in keys:
        o = lambda f: opt(rng, .5, f)
        s["print"] = [{"what": opt(rng, .8, lambda: rng.choice(["Slides", "Handouts", "Handouts", "Notes", "Outline"])), "lay": o(lambda: rng.choice(["SlidesPerPage1", "SlidesPerPage2", "SlidesPerPage3", "SlidesPerPage4", "SlidesPerPage6", "SlidesPerPage9"])),
                       "header": o(lambda: text(rng)), "footer": o(lambda: text(rng)), "date": o(lambda: bool_(rng)), "nums": o(lambda: bool_(rng)), "frame": o(lambda: bool_(rng))}]
    if "fonts" in keys:
        s["fonts"] = [fonts(rng)]
    if "sig" in keys:
        o = lambda f: opt(rng, .5, f)
        s["sig"] = [{"name": text(rng), "email": o(lambda: "a&b@c.d"), "org": o(lambda: text(rng)), "stitle": o(lambda: text(rng)), "hash": o(lambda: rng.choice(["Sha256", "Sha384", "Sha512", "Sha1"])),
                     "date": o(lambda: "2024-02-29T12:34:56Z"), "commit": o(lambda: rng.choice(["Created", "Approved", "Reviewed"])), "comments": o(lambda: text(rng))}]
    return s


# ---------------------------------------------------------------- abstraction
def ext_of(i):
    if i["src"] in ("named", "file"):
        return i["name"].rsplit(".", 1)[-1].lower()
    f = i["fmt"].lower()
    return "jpg" if f == "jpeg" else f


def ab_style(st):
    return "Custom" if st["k"] == "Custom" else st["k"]


def ab_fmt(f):
    return {"b": f["b"], "i": f["i"], "u": f["u"], "s": f["s"], "sub": "sub" in f["scr"] and f["scr"][-1] == "sub", "sup": "sup" in f["scr"] and f["scr"][-1] == "sup",
            "color": [ncol(x) for x in f["color"]], "hl": [ncol(x) for x in f["hl"]], "sz": f["sz"], "font": [tok(x) for x in f["font"]]}


def ab_table(t):
    return {"x": t["x"], "y": t["y"], "cols": t["cols"],
            "rows": [{"h": r["h"], "cells": [dict(t=tok(c["t"]), b=c["b"], i=c["i"], u=c["u"], sz=c["sz"], tc=[ncol(x) for x in c["tc"]], bg=[ncol(x) for x in c["bg"]],
                                                  font=[tok(x) for x in c["font"]], al=c["al"], va=c["va"], gs=c["gs"], rs=c["rs"], hm=c["hm"], vm=c["vm"]) for c in r["cells"]]} for r in t["rows"]]}


def ab_link(l):
    tg = l["v"]
    if l["k"] == "email":
        tg = "mailto:" + l["v"] + ("?subject=" + l["subj"][0] if l["subj"] else "")
    elif l["k"] == "file":
        tg = "file:///" + l["v"].replace("\\", "/")
    return {"k": l["k"], "tg": tok(tg), "n": l["n"], "tip": [tok(x) for x in l["tip"]], "hl": l["hl"]}


def ab_shape(s):
    f = []
    for q in s["fill"]:
        if q["k"] == "solid":
            f.append({"k": "solid", "c": ncol(q["c"]), "tr": q["tr"], "dir": "", "ang": 0, "stops": []})
        else:
            st = sorted(q["stops"], key=lambda x: x["p"])       # a gradient is its stops by position
            f.append({"k": "grad", "c": "", "tr": [], "dir": q["dir"], "ang": q["ang"], "stops": [{"c": ncol(x["c"]), "p": x["p"], "tr": x["tr"]} for x in st]})
    return {"prst": SHAPES.get(s["ty"], "?"), "x": s["x"], "y": s["y"], "w": s["w"], "h": s["h"], "rot": s["rot"], "id": s["id"], "fill": f, "ln": [{"c": ncol(l["c"]), "w": l["w"]} for l in s["ln"]],
            "t": [tok(x) for x in s["t"]], "link": [ab_link(x) for x in s["link"]]}


def ab_slide(s):
    d = {k: s[k] for k in ("trans", "tsz", "csz", "tb", "cb", "ti", "ci", "tu", "cu")}
    d["layout"] = s["layout"] or "TitleAndContent"
    d["title"] = tok(s["title"])
    d["blank"] = s["title"].strip() == ""
    d["tc"] = [ncol(x) for x in s["tc"]]
    d["cc"] = [ncol(x) for x in s["cc"]]
    d["b"] = [{"m": o["m"], "t": tok(o["t"]), "st": {"k": ab_style(o["st"]), "c": tok(o["st"].get("c", ""))}, "lvl": o["lvl"], "f": [ab_fmt(x) for x in o["f"]]} for o in s["b"]]
    d["table"] = [ab_table(t) for t in s["table"]]
    d["shapes"] = [ab_shape(x) for x in s["shapes"]]
    d["images"] = [{"sha": sha(bytes.fromhex(i["data"])), "ext": ext_of(i), "x": i["x"], "y": i["y"], "w": i["w"], "h": i["h"], "alt": [tok(x) for x in i["alt"]],
                    "crop": [i["crop"][0][j] * 1000 for j in range(4)] if i["crop"] else [0, 0, 0, 0], "fx": i["fx"]} for i in s["images"] if i["src"] != "missing"]
    d["cxns"] = [{"ty": c["ty"], "x1": c["x1"], "y1": c["y1"], "x2": c["x2"], "y2": c["y2"], "ln": [{"c": ncol(l["c"]), "w": l["w"], "d": l["d"]} for l in c["ln"]], "sa": c["sa"], "ea": c["ea"],
                  "asz": c["asz"], "st": c["st"], "en": c["en"], "label": [tok(x) for x in c["label"]]} for c in s["cxns"]]
    d["charts"] = [{"title": tok(c["title"]), "ty": c["ty"], "cats": [tok(x) for x in c["cats"]], "series": [{"name": tok(q["name"]), "vals": [canon(v) for v in q["vals"]],
                    "abs": [canon(v).lstrip("-") for v in q["vals"]]} for q in c["series"]], "x": c["x"], "y": c["y"], "w": c["w"], "h": c["h"]} for c in s["charts"]]
    d["codes"] = [{"x": c["x"], "y": c["y"], "w": c["w"], "h": c["h"], "lines": [tok(x) for x in c["t"].split("\n")], "lang": tok(c["lang"])} for c in s["codes"]]
    d["notes"] = [tok(x) for x in s["notes"]]
    d["ink"] = [[{"c": ncol(q["c"]), "w": str(q["w"]), "tip": q["tip"].lower(), "op": q["op"], "pts": [v for p in q["pts"] for v in p]} for q in k] for k in s["ink"]]
    return d


CHARSET = {"": "-", "Ansi": "0", "Symbol": "2", "ShiftJis": "128", "Hangul": "129", "Gb2312": "134", "ChineseBig5": "136", "Greek": "161", "Turkish": "162", "Hebrew": "177", "Arabic": "178",
           "Baltic": "186", "Russian": "204", "Thai": "222", "EastEurope": "238"}


def ab_settings(s):
    d = {"theme": [], "show": s.get("show", []), "print": [], "fonts": [], "sig": [], "any": bool(s)}
    d["show"] = [dict(q, pen=[ncol(x) for x in q["pen"]], preset=q.get("preset", "")) for q in s.get("show", [])]
    for t in s.get("theme", []):
        d["theme"] = [{"preset": t["preset"], "name": tok(t["name"]), "colors": [[ncol(c) for c in x] for x in t["colors"]], "major": [tok(x) for x in t["major"]], "minor": [tok(x) for x in t["minor"]]}]
    for p in s.get("print", []):
        d["print"] = [dict(p, header=[tok(x) for x in p["header"]], footer=[tok(x) for x in p["footer"]])]
    for f in s.get("fonts", []):
        d["fonts"] = [{"face": tok(q["face"]), "style": q["style"], "sha": sha(bytes.fromhex(q["data"])), "charset": CHARSET[q["charset"]],
                       "panose": [tok(x) for x in q["panose"]], "pitch": [str(x) for x in q["pitch"]]} for q in f]
    for g in s.get("sig", []):
        d["sig"] = [{k: ([tok(x) for x in v] if isinstance(v, list) else tok(v)) for k, v in g.items()}]
    return d


def abstract(case):
    return {"title": tok(case["title"]), "slides": [ab_slide(dict(PLAIN, **s)) for s in case["slides"]], "settings": ab_settings(case["settings"])}


# ---------------------------------------------------------------- decks emitted by DeckMC
PAY = {"A": ("PNG", b"payload-A"), "Aj": ("JPG", b"payload-A"), "B": ("PNG", b"payload-B")}


def from_model(slides, cid, entries):
    """concrete deck for the slides of a DeckMC behaviour"""
    out = []
    nchart = 0
    for i, m in enumerate(slides):
        s = dict(PLAIN, title="Slide <%d>" % (i + 1))
        s["images"] = [{"src": "bytes", "name": "", "data": PAY[p][1].hex(), "fmt": PAY[p][0], "w": 100, "h": 100, "x": 10 * j, "y": i, "alt": ["pic %d.%d" % (i, j)], "crop": [], "fx": []}
                       for j, p in enumerate(m["pics"])]
        for j in range(m["charts"]):
            nchart += 1
            s.setdefault("charts", [])
            s["charts"] = s["charts"] + [{"title": "Chart %d" % nchart, "ty": ["Bar", "Pie", "Line", "Scatter"][nchart % 4], "cats": ["a", "b"], "series": [{"name": "s%d" % nchart, "vals": [str(nchart), "0.5"]}],
                                          "x": nchart, "y": 2, "w": 30, "h": 40}]
        if m["notes"]:
            s["notes"] = ["notes of slide %d" % (i + 1)]
        if m["ink"]:
            s["ink"] = [[{"c": "00000%d" % (i + 1), "w": i + 1, "tip": "Ball", "op": "1.0", "pts": [["1", str(i)], ["2", "3"]]}]]
        if m["link"] != "none":
            s["shapes"] = [{"ty": "Rectangle", "x": 1, "y": 2, "w": 3, "h": 4, "rot": [], "id": [], "fill": [], "ln": [], "t": ["go"],
                            "link": [{"k": m["link"], "v": "https://a.example/%d" % (i + 1), "n": 1, "subj": [], "tip": [], "hl": []}]}]
        out.append(s)
    return {"id": cid, "kind": "deck", "title": "model", "settings": {}, "entries": list(entries), "slides": out}
