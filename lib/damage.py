"""Damages packages (ZIP level) and re-writes them in equivalent ways; nothing of the code under test."""
import io, re, zipfile
from . import project as pj
from .vlib import tok

CORE = {"types": "[Content_Types].xml", "root": "_rels/.rels", "pres": "ppt/presentation.xml", "prel": "ppt/_rels/presentation.xml.rels"}
PRES, PRELS = CORE["pres"], CORE["prel"]
REL = re.compile(r"\s*<Relationship\s[^>]*?/>")
OTHERS = ["ppt/presProps.xml", "ppt/viewProps.xml", "ppt/tableStyles.xml", "ppt/theme/theme1.xml", "ppt/slideMasters/slideMaster1.xml", "ppt/slideLayouts/slideLayout1.xml", "docProps/core.xml", "docProps/app.xml"]


def load(path):
    with zipfile.ZipFile(path) as z:
        return {i.filename: z.read(i) for i in z.infolist()}


def dump(parts, path, order=None):
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        for n in order or list(parts):
            z.writestr(zipfile.ZipInfo(n, (1980, 1, 1, 0, 0, 0)), parts[n])


def text(parts, n):
    return parts[n].decode("utf-8")


def attr(el, name):
    m = re.search(r'(?<![\w:])' + re.escape(name) + r'="([^"]*)"', el)
    return m.group(1) if m else ""


def rels_of(parts, n):
    return [m.group(0) for m in REL.finditer(text(parts, n))] if n in parts else []


def internal(parts):
    """(rels part, element, target part) of every internal relationship"""
    out = []
    for n in sorted(parts):
        if n.endswith(".rels"):
            for el in rels_of(parts, n):
                if attr(el, "TargetMode") != "External":
                    out.append((n, el, pj.resolve(pj.rels_source(n), attr(el, "Target"))))
    return out


def slide_part(i):
    return "ppt/slides/slide%d.xml" % i


def slide_rid(parts0, i):
    for el in rels_of(parts0, PRELS):
        if pj.resolve(PRES, attr(el, "Target")) == slide_part(i):
            return attr(el, "Id")
    return ""


def hurt(parts, d, rng, first, notes):
    """applies one damage to parts; first: the undamaged package; notes: what expectations need to know"""
    k, i = d["k"], d.get("i", 0)
    if k == "part":
        parts.pop(CORE.get(d["x"], d["x"]), None)
    elif k == "slide":
        parts.pop(slide_part(i), None)
    elif k in ("rel", "away") and PRELS in parts:
        t = text(parts, PRELS)
        for el in rels_of(parts, PRELS):
            if attr(el, "Id") == slide_rid(first, i):
                n = len([x for x in first if re.fullmatch(r"ppt/slides/slide\d+\.xml", x)])
                t = t.replace(el, "" if k == "rel" else el.replace('slide%d.xml"' % i, 'slide%d.xml"' % (i % n + 1)), 1)
        parts[PRELS] = t.encode()
    elif k in ("entry", "twice") and PRES in parts:
        t = text(parts, PRES)
        for m in list(re.finditer(r"\s*<p:sldId [^>]*/>", t)):
            if attr(m.group(0), "r:id") == slide_rid(first, i):
                if k == "entry":
                    t = t.replace(m.group(0), "", 1)
                else:
                    new = re.sub(r' id="\d+"', ' id="%d"' % (900 + i), m.group(0))
                    t = t.replace("</p:sldIdLst>", new + "</p:sldIdLst>", 1)
                    break
        parts[PRES] = t.encode()
    elif k == "extra":
        c = sorted({t for n, el, t in internal(parts) if t in parts and t not in OTHERS and t not in CORE.values() and not t.startswith("ppt/slides/")})
        c = [t for t in c if d.get("x", "") in t] or c
        if c:
            parts.pop(rng.choice(c))
    elif k == "web":
        # a relationship inside the package whose target is an address outside of it
        c = [(n, el) for n, el, t in internal(parts) if t in parts and attr(el, "Type").rsplit("/", 1)[-1] not in ("slide", "officeDocument", "slideMaster", "slideLayout")]
        if c:
            n, el = rng.choice(c)
            new = re.sub(r"""Target=(["'])[^"']*["']""", lambda m: "Target=" + m.group(1) + rng.choice(["http://a.example/x", "https://b.example/y.png", "mailto:a@b.c", "file:///x/y"]) + m.group(1), el)
            parts[n] = text(parts, n).replace(el, new, 1).encode()
    elif k == "relamp":
        c = sorted(n for n in parts if n.endswith(".rels") and (d["x"] == "" or n == d["x"]))
        if c:
            n = rng.choice(c)
            junk, fixed = rng.choice([(b" & ", b" &amp; "), (b"&nbsp;", b"&amp;nbsp;"), (b"\xff", b"\xef\xbf\xbd")])
            notes[n] = parts[n].replace(b"</Relationships>", fixed + b"</Relationships>")
            parts[n] = parts[n].replace(b"</Relationships>", junk + b"</Relationships>")
    elif k == "type" and CORE["types"] in parts:
        c = sorted(n for n in parts if not n.endswith(".rels") and n != CORE["types"])
        c = [n for n in c if not n.endswith(".xml")] if rng.random() < .6 and any(not n.endswith(".xml") for n in c) else c
        n = rng.choice(c)
        t = text(parts, CORE["types"])
        t = re.sub(r'\s*<Override\s[^>]*PartName="/%s"[^>]*/>' % re.escape(n), "", t)
        t = re.sub(r'\s*<Default\s[^>]*Extension="%s"[^>]*/>' % re.escape(n.rsplit(".", 1)[-1]), "", t)
        parts[CORE["types"]] = t.encode()
    elif k in ("amp", "cut"):
        c = sorted(n for n in parts if n.endswith(".xml") and n not in CORE.values() and (k == "cut" or b"</a:t>" in parts[n]) and n not in notes)
        if c:
            n = rng.choice(c)
            b = parts[n]
            if k == "amp":
                junk, fixed = rng.choice([(b" & ", b" &amp; "), (b"&", b"&amp;"), (b"&nbsp;", b"&amp;nbsp;"), (b"\xff", b"\xef\xbf\xbd"), (b"caf\xe9 ", b"caf\xef\xbf\xbd "), (b"&a b;", b"&amp;a b;"), (b"&& ", b"&amp;&amp; "), (b"&verylongnamewithoutend", b"&amp;verylongnamewithoutend")])
                notes[n] = b.replace(b"</a:t>", fixed + b"</a:t>", 1)
                parts[n] = b.replace(b"</a:t>", junk + b"</a:t>", 1)
            else:
                notes[n] = None
                parts[n] = b[:rng.choice([len(b) - 1, len(b) - 3, len(b) // 2, len(b) * 2 // 3])] if len(b) > 60 else b""


def rewrite(parts, how, rng):
    """the same package written differently"""
    out = dict(parts)
    for n in list(out):
        if n.endswith(".rels") or n == CORE["types"]:
            t = out[n].decode()
            if "line" in how:
                t = re.sub(r">\s+<", "><", t)
            if "attrs" in how:
                def turn(m):
                    at = re.findall(r'([\w:]+)="([^"]*)"', m.group(2))
                    rng.shuffle(at)
                    return "<" + m.group(1) + "".join(' %s="%s"' % a for a in at) + "/>"
                t = re.sub(r"<(Relationship|Override|Default)\s([^>]*?)/>", turn, t)
            if "abs" in how and n.endswith(".rels"):
                src = pj.rels_source(n)
                t = re.sub(r"<Relationship\s[^>]*?/>", lambda m: m.group(0) if 'TargetMode="External"' in m.group(0) or 'TargetMode' in m.group(0) else
                           re.sub(r'Target="([^"]*)"', lambda q: 'Target="/%s"' % pj.resolve(src, q.group(1)), m.group(0)), t)
            if "quote" in how:
                t = re.sub(r'(Id|Type|Target|TargetMode|PartName|ContentType|Extension)="([^"\']*)"', r"\1='\2'", t)
            out[n] = t.encode()
    if "order" in how:
        ks = list(out)
        rng.shuffle(ks)
        out = {k: out[k] for k in ks}
    return out


def view(data):
    pkg = pj.Pkg(data)
    v = pj.package_view(pkg)
    v["names"] = [tok(n) for n in sorted(pkg.parts)]
    v["num"] = [{"n": tok(n), "k": int(re.search(r"(\d+)\.xml$", n).group(1))} for n in sorted(pkg.parts) if re.fullmatch(r"ppt/slides/slide\d+\.xml", n)]
    v["relparts"] = [tok(n) for n in sorted(pkg.parts) if n.endswith(".rels")]
    v["rp"] = [{"s": tok(pj.rels_source(n)), "r": tok(n)} for n in sorted(pkg.parts) if n.endswith(".rels")]
    v["sha"] = [[tok(n), pj.sha(b)] for n, b in sorted(pkg.parts.items())]
    return v
