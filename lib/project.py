"""Projects a presentation file to the abstract package and slide views of the specification.
Only standard-library ZIP and XML parsing; nothing of the code under test."""
import hashlib, io, posixpath, re, zipfile
import xml.etree.ElementTree as ET
from .vlib import tok

A = "{http://schemas.openxmlformats.org/drawingml/2006/main}"
P = "{http://schemas.openxmlformats.org/presentationml/2006/main}"
R = "{http://schemas.openxmlformats.org/officeDocument/2006/relationships}"
C = "{http://schemas.openxmlformats.org/drawingml/2006/chart}"
CT = "{http://schemas.openxmlformats.org/package/2006/content-types}"
PR = "{http://schemas.openxmlformats.org/package/2006/relationships}"
MC = "{http://schemas.openxmlformats.org/markup-compatibility/2006}"
XML_EXT = ("xml", "rels", "vml")


def sha(b):
    return hashlib.sha256(b).hexdigest()[:16]


def local(tag):
    return tag.rsplit("}", 1)[-1]


def short(t):
    """last path segment of a relationship type, keeping the family apart"""
    return t.rstrip("/").rsplit("/", 1)[-1]


def num(s, d=-1):
    """TLC-safe integer: falls back to the token text when it is no 32-bit integer"""
    if s is None:
        return d
    if re.fullmatch(r"-?\d{1,9}", s) or (re.fullmatch(r"-?\d{10}", s) and abs(int(s)) < 2 ** 31):
        return int(s)
    return -999999999


def resolve(src, target):
    base = posixpath.dirname(src)
    p = target if target.startswith("/") else posixpath.join("/" + base, target)
    return posixpath.normpath(p).lstrip("/")


def rels_source(n):
    d, f = posixpath.split(n)
    return posixpath.join(posixpath.dirname(d), f[:-5]).lstrip("/")


class Pkg:
    def __init__(self, data):
        self.raw = data
        self.parts, self.order, self.dups, self.bad = {}, [], [], []
        self.zip_ok = True
        try:
            z = zipfile.ZipFile(io.BytesIO(data))
            for i in z.infolist():
                if i.filename.endswith("/"):
                    continue
                if i.filename in self.parts:
                    self.dups.append(i.filename)
                self.order.append(i.filename)
                self.parts[i.filename] = z.read(i)
        except Exception as e:   # not a readable archive
            self.zip_ok = False
        self.xml = {}
        for n, b in self.parts.items():
            if n.rsplit(".", 1)[-1].lower() in XML_EXT:
                try:
                    self.xml[n] = ET.fromstring(b)
                except (ET.ParseError, ValueError, LookupError):
                    self.bad.append(n)
        self.defaults, self.overrides = [], []
        t = self.xml.get("[Content_Types].xml")
        if t is not None:
            for e in t:
                if e.tag == CT + "Default":
                    self.defaults.append((e.get("Extension", "").lower(), e.get("ContentType", "")))
                elif e.tag == CT + "Override":
                    self.overrides.append((e.get("PartName", ""), e.get("ContentType", "")))
        self.rels = []
        for n in self.order:
            if n.endswith(".rels") and n in self.xml:
                src = rels_source(n)
                for e in self.xml[n]:
                    ext = e.get("TargetMode", "Internal") == "External"
                    tg = e.get("Target", "")
                    self.rels.append({"src": src, "id": e.get("Id", ""), "ty": e.get("Type", ""), "ext": ext,
                                      "tg": tg if ext else resolve(src, tg), "raw": tg})
        self.by_src = {}
        for r in self.rels:
            self.by_src.setdefault(r["src"], {}).setdefault(r["id"], r)

    def ctype(self, n):
        for p, c in self.overrides:
            if p.lstrip("/").lower() == n.lower():
                return c
        e = n.rsplit(".", 1)[-1].lower() if "." in posixpath.basename(n) else ""
        for x, c in self.defaults:
            if x == e:
                return c
        return ""

    def rel(self, src, rid):
        return self.by_src.get(src, {}).get(rid)

    def target(self, src, rid):
        r = self.rel(src, rid)
        return r["tg"] if r and not r["ext"] else None

    def of_type(self, src, ty):
        return [r for r in self.rels if r["src"] == src and short(r["ty"]) == ty]

    def slides(self):
        """slide part names in slide-list order (None where a reference is broken)"""
        p = self.xml.get("ppt/presentation.xml")
        if p is None:
            return []
        return [self.target("ppt/presentation.xml", e.get(R + "id")) for e in p.iter(P + "sldId") if e.get(R + "id") is not None]


def refs(pkg, n):
    """relationship ids used in a part: (element, attribute, id)"""
    out = []
    for e in pkg.xml[n].iter():
        for k, v in e.attrib.items():
            if k.startswith(R):
                out.append((local(e.tag), local(k), v))
    return out


def package_view(pkg):
    names = sorted(pkg.parts)
    view = {"zip": pkg.zip_ok, "dups": sorted(set(pkg.dups)), "bad": sorted(pkg.bad), "parts": [], "rels": [], "refs": [],
            "overrides": [[tok(p.lstrip("/")), tok(c)] for p, c in pkg.overrides],
            "slash": [tok(p) for p, c in pkg.overrides if not p.startswith("/")],
            "defaults": [[tok(p), tok(c)] for p, c in pkg.defaults], "sldIds": [], "shapeIds": [], "layoutIds": []}
    for n in names:
        if n == "[Content_Types].xml":
            continue
        view["parts"].append({"n": tok(n), "ct": tok(pkg.ctype(n))})
    for r in pkg.rels:
        view["rels"].append({"src": tok(r["src"]), "id": tok(r["id"]), "ty": tok(short(r["ty"])), "tg": tok(r["tg"]), "ext": r["ext"]})
    for n in names:
        if n in pkg.xml and not n.endswith(".rels") and n != "[Content_Types].xml":
            for el, at, v in refs(pkg, n):
                if v == "" and el.startswith("hlink"):
                    continue      # a show jump has no target
                view["refs"].append({"src": tok(n), "id": tok(v), "el": tok(el)})
            root = local(pkg.xml[n].tag)
            if root in ("sld", "sldLayout", "sldMaster", "notes", "notesMaster", "handoutMaster"):
                ids = [e.get("id", "") for e in pkg.xml[n].iter() if e.tag == P + "cNvPr"]
                view["shapeIds"].append({"n": tok(n), "ids": [tok(i) for i in ids]})
    p = pkg.xml.get("ppt/presentation.xml")
    if p is not None:
        for e in p.iter(P + "sldId"):
            if e.get(R + "id") is not None:
                view["sldIds"].append({"id": num(e.get("id"), -1), "rid": tok(e.get(R + "id")), "tg": tok(pkg.target("ppt/presentation.xml", e.get(R + "id")) or "")})
        for e in p.iter(P + "sldMasterId"):
            view["layoutIds"].append(tok(e.get("id", "")))
    for n in names:
        if n in pkg.xml and local(pkg.xml[n].tag) == "sldMaster":
            for e in pkg.xml[n].iter(P + "sldLayoutId"):
                view["layoutIds"].append(tok(e.get("id", "")))
    return view


# ---------------------------------------------------------------- slides
def rtext(node):
    return "".join(t.text or "" for t in node.iter(A + "t"))


def solid(node):
    """color of a direct solidFill child and its alpha"""
    f = node.find(A + "solidFill") if node is not None else None
    if f is None:
        return "", -1
    c = f.find(A + "srgbClr")
    if c is None:
        return "scheme", -1
    al = c.find(A + "alpha")
    return c.get("val", ""), (num(al.get("val")) if al is not None else -1)


def flag(v):
    return v in ("1", "true")


def runprops(rp):
    if rp is None:
        return {"sz": -1, "b": False, "i": False, "u": "none", "strike": "none", "base": 0, "color": "", "hl": "", "font": "", "cs": ""}
    hl = rp.find(A + "highlight/" + A + "srgbClr")
    lt, cs = rp.find(A + "latin"), rp.find(A + "cs")
    return {"sz": num(rp.get("sz")), "b": flag(rp.get("b")), "i": flag(rp.get("i")), "u": rp.get("u", "none"), "strike": rp.get("strike", "noStrike").replace("noStrike", "none"),
            "base": num(rp.get("baseline"), 0), "color": tok(solid(rp)[0]), "hl": tok(hl.get("val", "") if hl is not None else ""),
            "font": tok(lt.get("typeface", "") if lt is not None else ""), "cs": tok(cs.get("typeface", "") if cs is not None else "")}


def bullet(pp):
    if pp is None:
        return "-"
    for e in pp:
        k = local(e.tag)
        if k == "buChar":
            return "char:" + tok(e.get("char", ""))
        if k == "buAutoNum":
            return "auto:" + e.get("type", "")
        if k == "buNone":
            return "none"
    return "-"


def one_run(p):
    """paragraphs of this generator hold one run; more are joined, formatting of the first"""
    rs = p.findall(A + "r")
    d = runprops(rs[0].find(A + "rPr") if rs else None)
    d["t"] = tok("".join((r.find(A + "t").text or "") if r.find(A + "t") is not None else "" for r in rs))
    d["runs"] = len(rs)
    return d


def xfrm(sp):
    x = sp.find(".//" + A + "xfrm")
    if x is None:
        x = sp.find(P + "xfrm")
    if x is None:
        return {"x": -1, "y": -1, "cx": -1, "cy": -1, "rot": 0, "fh": False, "fv": False}
    o, e = x.find(A + "off"), x.find(A + "ext")
    return {"x": num(o.get("x")), "y": num(o.get("y")), "cx": num(e.get("cx")), "cy": num(e.get("cy")), "rot": num(x.get("rot"), 0),
            "fh": flag(x.get("flipH")), "fv": flag(x.get("flipV"))}


def para(p):
    pp = p.find(A + "pPr")
    d = one_run(p)
    d["lvl"] = num(pp.get("lvl"), 0) if pp is not None else 0
    d["marL"] = num(pp.get("marL"), 0) if pp is not None else 0
    d["indent"] = num(pp.get("indent"), 0) if pp is not None else 0
    d["bu"] = bullet(pp)
    return d


def table_view(gf, t):
    x = xfrm(gf)
    cols = [num(c.get("w")) for c in t.findall(A + "tblGrid/" + A + "gridCol")]
    rows = []
    for tr in t.findall(A + "tr"):
        cells = []
        for tc in tr.findall(A + "tc"):
            p = tc.find(A + "txBody/" + A + "p")
            ps = tc.findall(A + "txBody/" + A + "p")
            pp = p.find(A + "pPr") if p is not None else None
            tp = tc.find(A + "tcPr")
            d = one_run(p) if p is not None else one_run(ET.Element("x"))
            if p is not None and p.find(A + "r") is None:
                d["t"] = ""
            d = {k: d[k] for k in ("t", "sz", "b", "i", "u", "color", "font", "runs")}
            d.update(paras=len(ps), algn=(pp.get("algn", "ctr") if pp is not None else "ctr"), anchor=(tp.get("anchor", "ctr") if tp is not None else "ctr"),
                     bg=tok(solid(tp)[0] if tp is not None else ""), gs=num(tc.get("gridSpan"), 1), rs=num(tc.get("rowSpan"), 1),
                     hm=flag(tc.get("hMerge")), vm=flag(tc.get("vMerge")))
            cells.append(d)
        rows.append({"h": num(tr.get("h")), "cells": cells})
    return {"x": x["x"], "y": x["y"], "cx": x["cx"], "cy": x["cy"], "cols": cols, "rows": rows}


def shape_view(pkg, part, sp):
    x = xfrm(sp)
    pr = sp.find(P + "spPr")
    col, al = solid(pr)
    g = pr.find(A + "gradFill")
    grad = []
    if g is not None:
        lin = g.find(A + "lin")
        grad = [{"ang": num(lin.get("ang")) if lin is not None else -1,
                 "stops": [{"p": num(q.get("pos")), "c": tok(q[0].get("val", "")), "al": (num(q[0][0].get("val")) if len(q[0]) else -1)} for q in g.iter(A + "gs")]}]
    ln = pr.find(A + "ln")
    geo = pr.find(A + "prstGeom")
    c = sp.find(P + "nvSpPr/" + P + "cNvPr")
    link = []
    h = c.find(A + "hlinkClick")
    if h is not None:
        rid = h.get(R + "id", "")
        r = pkg.rel(part, rid)
        link = [{"ty": short(r["ty"]) if r else "", "ext": bool(r and r["ext"]), "tg": tok(r["tg"] if r else ""), "action": tok(h.get("action", "")),
                 "tip": [tok(h.get("tooltip"))] if h.get("tooltip") is not None else [], "hl": flag(h.get("highlightClick", "0")), "rid": rid != ""}]
    body = sp.find(P + "txBody")
    ps = body.findall(A + "p") if body is not None else []
    lines = [tok(rtext(p)) for p in ps]
    if len(ps) == 1 and ps[0].find(A + "r") is None:
        lines = []
    return {"prst": geo.get("prst", "") if geo is not None else "", "x": x["x"], "y": x["y"], "cx": x["cx"], "cy": x["cy"], "rot": x["rot"],
            "fill": tok(col), "alpha": al, "grad": grad, "ln": [{"w": num(ln.get("w")), "c": tok(solid(ln)[0])}] if ln is not None else [],
            "lines": lines, "link": link, "id": num(c.get("id"))}


FXN = {"outerShdw": "Shadow", "reflection": "Reflection", "glow": "Glow", "softEdge": "SoftEdges", "innerShdw": "InnerShadow", "blur": "Blur"}


def pic_view(pkg, part, pic):
    x = xfrm(pic)
    bl = pic.find(".//" + A + "blip")
    rid = bl.get(R + "embed", "") if bl is not None else ""
    tg = pkg.target(part, rid)
    r = pkg.rel(part, rid)
    data = pkg.parts.get(tg) if tg else None
    src = pic.find(".//" + A + "srcRect")
    crop = [num(src.get(k), 0) for k in "ltrb"] if src is not None else [0, 0, 0, 0]
    fx = pic.find(P + "spPr/" + A + "effectLst")
    c = pic.find(".//" + P + "cNvPr")
    return {"descr": tok(c.get("descr", "")), "x": x["x"], "y": x["y"], "cx": x["cx"], "cy": x["cy"], "part": tok(tg or ""), "ty": short(r["ty"]) if r else "",
            "sha": sha(data) if data is not None else "", "ext": (tg or "").rsplit(".", 1)[-1], "crop": crop,
            "fx": [FXN.get(local(e.tag), local(e.tag)) for e in fx] if fx is not None else []}


def canon(v):
    try:
        return repr(float(v))
    except (TypeError, ValueError):
        return "?" + tok(str(v))


def pts(node):
    """points of a numCache/strCache/…Lit below node"""
    if node is None:
        return [], -1
    out = [{"i": num(p.get("idx")), "v": p.find(C + "v").text if p.find(C + "v") is not None else None} for p in node.iter(C + "pt")]
    pc = node.find(".//" + C + "ptCount")
    return out, (num(pc.get("val")) if pc is not None else -1)


def numpts(node):
    o, n = pts(node)
    return {"n": n, "i": [x["i"] for x in o], "v": [canon(x["v"]) for x in o]}


def strpts(node):
    o, n = pts(node)
    return {"n": n, "i": [x["i"] for x in o], "v": [tok(x["v"] or "") for x in o]}


def chart_part(pkg, part):
    root = pkg.xml.get(part)
    if root is None or local(root.tag) != "chartSpace":
        return []
    ch = root.find(C + "chart")
    ti = ch.find(C + "title")
    plots = []
    cats = None
    for e in ch.find(C + "plotArea"):
        k = local(e.tag)
        if not k.endswith("Chart"):
            continue
        at = lambda n: (e.find(C + n).get("val", "") if e.find(C + n) is not None else "")
        ser = []
        for s in e.findall(C + "ser"):
            nm = s.find(C + "tx")
            if nm is not None:
                v = nm.find(".//" + C + "v")
                name = v.text or "" if v is not None else rtext(nm)
            else:
                t = s.find(C + "title")
                name = rtext(t) if t is not None else None
            g = lambda n: int(s.find(C + n).get("val")) if s.find(C + n) is not None else -1
            yv = s.find(C + "val")
            if yv is None:
                yv = s.find(C + "yVal")
            xs = numpts(s.find(C + "xVal"))
            ser.append({"idx": g("idx"), "order": g("order"), "name": tok(name) if name is not None else "~missing", "y": numpts(yv),
                        "x": xs, "sz": numpts(s.find(C + "bubbleSize"))})
            if cats is None and s.find(C + "cat") is not None:
                cats = strpts(s.find(C + "cat"))
        if cats is None:
            ax = e.find(C + "catAx")
            if ax is not None and ax.find(".//" + C + "pt") is not None:
                cats = strpts(ax)
        plots.append({"k": k, "dir": at("barDir"), "grp": at("grouping"), "scat": at("scatterStyle"), "radar": at("radarStyle"), "ser": ser})
    if cats is None:
        ax = ch.find(C + "plotArea").find(C + "catAx")
        if ax is not None and ax.find(".//" + C + "pt") is not None:
            cats = strpts(ax)
    ext = root.find(C + "externalData")
    emb = pkg.target(part, ext.get(R + "id", "")) if ext is not None else None
    return [{"title": tok(rtext(ti)) if ti is not None else "~missing", "plots": plots, "cats": cats or {"n": 0, "i": [], "v": []},
             "emb": tok(emb or ""), "embOk": bool(emb and emb in pkg.parts and len(pkg.parts[emb]) > 0)}]


INK = "{http://www.w3.org/2003/InkML}"


def ink_part(pkg, part):
    root = pkg.xml.get(part)
    if root is None or local(root.tag) != "ink":
        return []
    ns = root.tag[:-3]
    br = {}
    for b in root.iter(ns + "brush"):
        d = {local(k): v for k, v in b.attrib.items()}
        for q in b.iter(ns + "brushProperty"):
            d[q.get("name")] = q.get("value")
        br[d.get("id", "")] = d
    out = []
    for t in root.iter(ns + "trace"):
        b = br.get(t.get("brushRef", "").lstrip("#"), {})
        n = [x for x in re.split(r"[ ,]+", (t.text or "").strip()) if x]
        out.append({"c": tok(b.get("color", "")), "w": tok(str(b.get("width", ""))), "tip": tok(b.get("tip", "")), "tr": tok(str(b.get("transparency", ""))), "pts": [tok(x) for x in n]})
    return out


def transition(root):
    t = root.find(P + "transition")
    if t is None:
        t = root.find(".//" + P + "transition")
    if t is None:
        return "none"
    k = [e for e in t]
    return local(k[0].tag) if k else "empty"


def slide_view(pkg, part):
    root = pkg.xml.get(part)
    if root is None:
        return None
    lay = pkg.of_type(part, "slideLayout")
    m = re.search(r"slideLayout(\d+)\.xml$", lay[0]["tg"]) if len(lay) == 1 else None
    v = {"part": tok(part), "layout": int(m.group(1)) if m else -1, "layouts": len(lay), "trans": transition(root), "title": [], "bodies": [], "tables": [], "shapes": [],
         "pics": [], "codes": [], "cxns": [], "charts": [], "ink": [], "notes": [], "order": []}
    tree = root.find(P + "cSld/" + P + "spTree")
    for e in tree if tree is not None else []:
        k = local(e.tag)
        if k == "sp":
            c = e.find(P + "nvSpPr/" + P + "cNvPr")
            name = c.get("name", "") if c is not None else ""
            tx = e.find(P + "nvSpPr/" + P + "cNvSpPr")
            box = tx is not None and flag(tx.get("txBox"))
            ps = e.findall(P + "txBody/" + A + "p")
            if name == "Title" and box:
                for p in ps:
                    d = one_run(p)
                    pp = p.find(A + "pPr")
                    v["title"].append({"t": d["t"], "sz": d["sz"], "b": d["b"], "i": d["i"], "u": d["u"], "color": d["color"], "runs": d["runs"],
                                       "algn": pp.get("algn", "l") if pp is not None else "l"})
                v["order"].append("title")
            elif name in ("Content", "Left Content", "Right Content") and box:
                v["bodies"].append([para(p) for p in ps])
                v["order"].append("body")
            elif name == "Code Block" and box:
                x = xfrm(e)
                v["codes"].append({"x": x["x"], "y": x["y"], "cx": x["cx"], "cy": x["cy"], "lines": [tok(rtext(p)) for p in ps]})
                v["order"].append("code")
            else:
                v["shapes"].append(shape_view(pkg, part, e))
                v["order"].append("shape")
        elif k == "pic":
            v["pics"].append(pic_view(pkg, part, e))
            v["order"].append("pic")
        elif k == "cxnSp":
            x = xfrm(e)
            pr = e.find(P + "spPr")
            ln = pr.find(A + "ln")
            hd, tl = ln.find(A + "headEnd"), ln.find(A + "tailEnd")
            st, en = e.find(".//" + A + "stCxn"), e.find(".//" + A + "endCxn")
            dsh = ln.find(A + "prstDash")
            g = lambda n: [n.get("type", ""), n.get("w", ""), n.get("len", "")] if n is not None else ["none", "", ""]
            q = lambda n: [num(n.get("id")), num(n.get("idx"))] if n is not None else []
            tb = e.find(P + "txBody")
            v["cxns"].append({"prst": pr.find(A + "prstGeom").get("prst", ""), "x": x["x"], "y": x["y"], "cx": x["cx"], "cy": x["cy"], "fh": x["fh"], "fv": x["fv"],
                              "w": num(ln.get("w")), "c": tok(solid(ln)[0]), "d": dsh.get("val", "") if dsh is not None else "", "head": g(hd), "tail": g(tl), "st": q(st), "en": q(en),
                              "label": [tok(rtext(tb))] if tb is not None else []})
            v["order"].append("cxn")
        elif k == "graphicFrame":
            t = e.find(".//" + A + "tbl")
            ch = e.find(".//" + C + "chart")
            if t is not None:
                v["tables"].append(table_view(e, t))
                v["order"].append("table")
            elif ch is not None:
                x = xfrm(e)
                rid = ch.get(R + "id", "")
                tg = pkg.target(part, rid)
                v["charts"].append({"x": x["x"], "y": x["y"], "cx": x["cx"], "cy": x["cy"], "part": tok(tg or ""), "c": chart_part(pkg, tg) if tg else []})
                v["order"].append("chart")
            else:
                v["order"].append("frame")
        elif k == "AlternateContent":
            cp = e.find(".//" + P + "contentPart")
            if cp is not None:
                tg = pkg.target(part, cp.get(R + "id", ""))
                v["ink"].append({"part": tok(tg or ""), "st": ink_part(pkg, tg) if tg else []})
                v["order"].append("ink")
        elif k in ("nvGrpSpPr", "grpSpPr"):
            pass
        else:
            v["order"].append(tok(k))
    for r in pkg.of_type(part, "notesSlide"):
        n = pkg.xml.get(r["tg"])
        txt = []
        if n is not None:
            for sp in n.iter(P + "sp"):
                ph = sp.find(".//" + P + "ph")
                if ph is not None and ph.get("type") == "body":
                    txt = [tok("".join(rtext(p) for p in sp.findall(P + "txBody/" + A + "p")))]
        back = [q["tg"] for q in pkg.of_type(r["tg"], "slide")]
        v["notes"].append({"part": tok(r["tg"]), "t": txt, "back": [tok(b) for b in back], "masters": len(pkg.of_type(r["tg"], "notesMaster"))})
    return v


# ---------------------------------------------------------------- presentation level
def attrs(e, names):
    return {n: e.get(n, "-") for n in names}


def settings_view(pkg):
    v = {"show": [], "theme": [], "fonts": [], "handout": [], "sig": [], "core": {}, "app": {}}
    pp = pkg.xml.get("ppt/presProps.xml")
    s = pp.find(P + "showPr") if pp is not None else None
    if s is not None:
        d = attrs(s, ["loop", "showNarration", "showAnimation", "useTimings"])
        d["kids"] = []
        d["pen"] = ""
        for e in s:
            k = local(e.tag)
            if k == "penClr":
                c = e.find(A + "srgbClr")
                d["pen"] = tok(c.get("val", "")) if c is not None else "?"
            elif k == "extLst":
                pass
            elif k == "sldRg":
                d["kids"].append("sldRg:%s:%s" % (e.get("st"), e.get("end")))
            elif k == "custShow" or k == "sldLst":
                d["kids"].append("cust:" + ",".join(q.get("id", "") for q in e))
            else:
                d["kids"].append(k)
        d["media"] = any(local(e.tag) == "showMediaCtrls" for e in pp.iter())
        v["show"] = [d]
    th = pkg.xml.get("ppt/theme/theme1.xml")
    if th is not None:
        cs = th.find(".//" + A + "clrScheme")
        fs = th.find(".//" + A + "fontScheme")
        cols = []
        for e in cs:
            c = e[0]
            cols.append([local(e.tag), c.get("val", "").upper() if local(c.tag) == "srgbClr" else "sys:" + c.get("lastClr", "")])
        v["theme"] = [{"name": tok(th.get("name", "")), "cols": [[a, tok(b)] for a, b in cols], "major": tok(fs.find(A + "majorFont/" + A + "latin").get("typeface", "")),
                       "minor": tok(fs.find(A + "minorFont/" + A + "latin").get("typeface", ""))}]
    pr = pkg.xml.get("ppt/presentation.xml")
    if pr is not None:
        fl = pr.find(P + "embeddedFontLst")
        if fl is not None:
            for f in fl:
                q = f.find(P + "font")
                st = {}
                for e in f:
                    if local(e.tag) != "font":
                        tg = pkg.target("ppt/presentation.xml", e.get(R + "id", ""))
                        st[local(e.tag)] = sha(pkg.parts[tg]) if tg in pkg.parts else ""
                v["fonts"].append({"face": tok(q.get("typeface", "")), "charset": tok(q.get("charset", "-")), "pitch": tok(q.get("pitchFamily", "-")),
                                   "panose": tok(q.get("panose", "-")), "st": [[k, x] for k, x in st.items()]})
        v["fontLists"] = len(pr.findall(P + "embeddedFontLst"))
    hm = [r for r in pkg.of_type("ppt/presentation.xml", "handoutMaster")]
    for r in hm:
        x = pkg.xml.get(r["tg"])
        d = {"hdr": [], "ftr": [], "dt": 0, "sldNum": 0}
        if x is not None:
            for sp in x.iter(P + "sp"):
                ph = sp.find(".//" + P + "ph")
                t = ph.get("type", "") if ph is not None else ""
                if t in ("hdr", "ftr"):
                    d[t].append(tok(rtext(sp)))
                elif t in ("dt", "sldNum"):
                    d[t] += 1
        v["handout"].append(d)
    mm = pkg.xml.get("ppt/slideMasters/slideMaster1.xml")
    v["master"] = {"hdr": 0, "ftr": [], "dt": 0, "sldNum": 0}
    for sp in mm.iter(P + "sp") if mm is not None else []:
        ph = sp.find(".//" + P + "ph")
        t = ph.get("type", "") if ph is not None else ""
        if t == "ftr":
            v["master"]["ftr"].append(tok(rtext(sp)))
        elif t in ("hdr", "dt", "sldNum"):
            v["master"][t] += 1
    so = pkg.of_type("", "origin")
    sig = [n for n in pkg.parts if n.startswith("_xmlsignatures/") and n.endswith(".xml")]
    for n in sorted(sig):
        x = pkg.xml.get(n)
        if x is None:
            continue
        g = {}
        for e in x.iter():
            k = local(e.tag)
            if k in ("KeyName", "SignatureText", "SignatureComments", "SigningTime", "CommitmentTypeId", "CommitmentTypeQualifier", "ManifestHashAlgorithm"):
                g.setdefault(k, []).append(e.text or "")
            if e.get("Algorithm"):
                g.setdefault("Algorithms", []).append(e.get("Algorithm"))
            for q, w in e.attrib.items():
                if local(q).lower() == "uri":
                    g.setdefault("Uris", []).append(w)
        v["sig"].append([[k, [tok(t) for t in x]] for k, x in sorted(g.items())])
    v["sigRels"] = len(so)
    for n, key in (("docProps/core.xml", "core"), ("docProps/app.xml", "app")):
        x = pkg.xml.get(n)
        d = {}
        if x is not None:
            for e in x:
                d[local(e.tag)] = tok("".join(e.itertext()))
        v[key] = d
    return v


def app_titles(pkg):
    x = pkg.xml.get("docProps/app.xml")
    if x is None:
        return {"slides": -1, "notes": -1, "titles": []}
    ns = x.tag[:-10]
    g = lambda n: num((x.find(ns + n).text if x.find(ns + n) is not None else None), -1)
    vt = "{http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes}"
    tp = x.find(ns + "TitlesOfParts")
    return {"slides": g("Slides"), "notes": g("Notes"), "titles": [tok(e.text or "") for e in tp.iter(vt + "lpstr")] if tp is not None else []}


def core_title(pkg):
    x = pkg.xml.get("docProps/core.xml")
    if x is None:
        return []
    return [tok(e.text or "") for e in x if local(e.tag) == "title"]


TS = re.compile(rb"\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}Z")
RND = re.compile(rb'name="image_[0-9a-fA-F-]+\.[a-z]+"')


DIR = re.compile(rb'name="[^"<>]*/pic(?=\d+\.)')      # scratch directory of the pictures read from files


def unzipped(b):
    """the contents of an embedded package without its zip timestamps"""
    try:
        z = zipfile.ZipFile(io.BytesIO(b))
        return b"".join(n.encode() + b"\0" + TS.sub(b"T", z.read(n)) + b"\0" for n in sorted(z.namelist()))
    except zipfile.BadZipFile:
        return b


def digests(pkg):
    out = []
    for n in sorted(pkg.parts):
        b = pkg.parts[n]
        if n == "docProps/core.xml":
            b = TS.sub(b"T", b)
        if n.startswith("ppt/slides/slide"):
            b = DIR.sub(b'name="pic', RND.sub(b'name="image"', b))
        if n.endswith(".xlsx"):
            b = unzipped(b)
        if (n == "[Content_Types].xml" or n.endswith(".rels")) and pkg.xml.get(n) is not None:
            b = repr(sorted((local(e.tag), sorted(e.attrib.items())) for e in pkg.xml[n])).encode()     # their order means nothing
        out.append([tok(n), sha(b)])
    return out


def klass(n):
    for k, pre in (("slide", "ppt/slides/"), ("notes", "ppt/notesSlides/"), ("chart", "ppt/charts/"), ("chart", "ppt/embeddings/"), ("media", "ppt/media/"), ("ink", "ppt/ink/"), ("layout", "ppt/slideLayouts/"),
                   ("master", "ppt/slideMasters/"), ("handout", "ppt/handoutMasters/"), ("notesMaster", "ppt/notesMasters/"), ("theme", "ppt/theme/theme1.xml"), ("otherTheme", "ppt/theme/"), ("fonts", "ppt/fonts/"),
                   ("presProps", "ppt/presProps.xml"), ("presentation", "ppt/presentation.xml"), ("presentation", "ppt/_rels/presentation.xml.rels"), ("docProps", "docProps/"), ("sig", "_xmlsignatures/"), ("root", "_rels/.rels"), ("types", "[Content_Types].xml")):
        if n.startswith(pre):
            return k
    return "other"


def deep(pkg, n, seen=()):
    """digest of a part with everything it reaches, apart from slides and masters"""
    b = pkg.parts.get(n)
    if b is None:
        return "missing"
    out = [sha(b)]
    for r in sorted(pkg.by_src.get(n, {}).values(), key=lambda r: r["id"]):
        out.append(short(r["ty"]) + (r["raw"] if r["ext"] else deep(pkg, r["tg"], seen + (n,)) if r["tg"] not in seen and len(seen) < 4 else "~"))
    return sha(" ".join(out).encode())


def fingerprint(pkg, part, slides):
    """what a slide shows, wherever it and its parts are called: digest of its XML with relationship ids
    replaced by what they lead to; links to slides as positions (0: nowhere); notes with the slide they point back to"""
    root = pkg.xml.get(part)
    if root is None:
        return {"sha": "unreadable", "links": [], "notes": []}
    links, out = [], []
    for e in root.iter():
        at = []
        for k, v in sorted(e.attrib.items()):
            if k.startswith(R):
                r = pkg.rel(part, v)
                if local(e.tag).startswith("hlink") and (v == "" or (r and not r["ext"] and r["tg"].startswith("ppt/slides/"))):
                    links.append((slides.index(r["tg"]) + 1 if r["tg"] in slides else -1) if v and r else 0)
                    v = "@"
                elif r is None:
                    v = "?"
                else:
                    v = "ext:" + r["raw"] if r["ext"] else short(r["ty"]) + ":" + deep(pkg, r["tg"])
            at.append((k, v))
        out.append((e.tag, at, e.text or "", e.tail or ""))
    rest = sorted((short(r["ty"]), r["raw"] if r["ext"] else deep(pkg, r["tg"]) if short(r["ty"]) != "slideLayout" else r["tg"])
                  for r in pkg.by_src.get(part, {}).values() if short(r["ty"]) in ("slideLayout", "image", "chart", "ink"))
    notes = []
    for r in pkg.of_type(part, "notesSlide"):
        n = pkg.parts.get(r["tg"], b"")
        back = [q["tg"] for q in pkg.of_type(r["tg"], "slide")]
        notes.append({"sha": sha(n), "back": slides.index(back[0]) + 1 if len(back) == 1 and back[0] in slides else 0})
    return {"sha": sha(repr((out, rest)).encode()), "links": links, "notes": notes}


FIXED = ("layout", "master", "theme", "otherTheme", "notesMaster", "handout", "fonts", "presProps", "sig")


def project(data, what=("pkg", "slides", "settings", "digests")):
    pkg = Pkg(data)
    o = {}
    if "pkg" in what:
        o["pkg"] = package_view(pkg)
    if "slides" in what:
        sl = [slide_view(pkg, n) if n else None for n in pkg.slides()]
        o["slides"] = [s for s in sl if s is not None]
        o["broken"] = sum(1 for s in sl if s is None)
        o["title"] = core_title(pkg)
        o["app"] = app_titles(pkg)
        o["media"] = [{"n": tok(n), "sha": sha(pkg.parts[n])} for n in sorted(pkg.parts) if n.startswith("ppt/media/")]
    if "settings" in what:
        o["settings"] = settings_view(pkg)
    if "digests" in what:
        o["digests"] = digests(pkg)
    if "classes" in what:
        o["digests"] = [[klass(n), n, d] for n, d in digests(pkg)]
    if "edit" in what:
        sl = [n or "" for n in pkg.slides()]
        o["fps"] = [fingerprint(pkg, n, sl) for n in sl]
        o["other"] = [[tok(n), sha(b)] for n, b in sorted(pkg.parts.items()) if klass(n) in FIXED]
    for w in what:
        if w.startswith("slide@"):
            sl = pkg.slides()
            k = int(w[6:])
            v = slide_view(pkg, sl[k]) if k < len(sl) and sl[k] else None
            o["new"] = [v] if v else []
    return o
