from xml.sax.saxutils import quoteattr
from lib import vlib
from lib.vlib import tok
from checks.common import op_trace, group_probes, rtext, xml_doc, near

NS = "http://schemas.openxmlformats.org/package/2006/relationships"
OD = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
BUILTIN = {"OfficeDocument": OD + "officeDocument", "Slide": OD + "slide", "SlideLayout": OD + "slideLayout", "SlideMaster": OD + "slideMaster",
           "Theme": OD + "theme", "Image": OD + "image", "Chart": OD + "chart",
           "CoreProperties": "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties",
           "ExtendedProperties": OD + "extended-properties"}
URI = {v: k for k, v in BUILTIN.items()}
CUSTOM = [OD + x for x in ("hyperlink", "notesSlide", "notesMaster", "package", "video", "audio", "comments", "commentAuthors", "tableStyles",
                           "presProps", "viewProps", "font", "chartUserShapes", "themeOverride", "slideUpdateInfo", "handoutMaster",
                           "customXml", "custom-properties")] + \
    ["http://schemas.microsoft.com/office/2007/relationships/media", "http://schemas.microsoft.com/office/2011/relationships/chartStyle",
     "http://schemas.microsoft.com/office/2011/relationships/chartColorStyle", "http://example.com/a?b=1&c=<2>", "urn:x-custom",
     "http://schemas.openxmlformats.org/package/2006/relationships/digital-signature/origin", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"]


def tname(uri):
    return URI.get(uri, uri)


def xmltext(rels, rng):
    out = ['<?xml version="1.0" encoding="UTF-8"?>', "<Relationships xmlns=%s>" % quoteattr(NS)]
    for r in rels:
        at = [("Id", r["id"]), ("Type", BUILTIN.get(r["type"], r["type"])), ("Target", r["target"])]
        if r["mode"] == "External":
            at.append(("TargetMode", "External"))
        rng.shuffle(at)
        out.append("<Relationship %s%s" % (" ".join("%s=%s" % (k, quoteattr(v)) for k, v in at), rng.choice(["/>", "></Relationship>", " />"])))
    return rng.choice(["", "\n", "\n  "]).join(out) + "</Relationships>"


def run(chk):
    em = chk.model("RelsMC", "RelsMC.cfg" if chk.quick else "RelsMC_thorough.cfg")
    ids = ["rId%d" % i for i in range(0, 8)] + ["custom"]
    cases = group_probes(em, lambda e: {"kind": "rels", "ids": ids, "types": ["Slide", "Image", "Theme"]})
    for c in cases:
        for i, o in enumerate(c["ops"]):
            o["target"] = "t/%d.xml" % i
    rng = chk.rng

    def rt():
        return rng.choice(list(BUILTIN)) if rng.random() < .5 else rng.choice(CUSTOM)

    def target():
        return rng.choice(["slides/slide%d.xml" % rng.randint(1, 30), "../media/image%d.png" % rng.randint(1, 9), "https://ex.com/?a=1&b=<2>",
                           "/ppt/x y.xml", "file:///C:\\a b\\c.doc", "mailto:a@b.c?subject=it's", rtext(rng, edge=False)])
    for n in range(120 if chk.quick else 4000):
        ops = []
        eids = ["rId%d" % rng.choice([1, 2, 3, 7, 10, 12, 99]) for _ in range(4)] + ["custom", "R1", "rIdx", "r&d", "rId007", "rId"]
        eids += [near(rng, x) for x in eids if rng.random() < .3]
        eids = list(dict.fromkeys(eids))
        rng.shuffle(eids)
        for _ in range(rng.randint(1, 12)):
            z = rng.random()
            if z < .45:
                ops.append({"name": "add", "type": rt(), "target": target()})
            elif z < .75 and eids:
                ops.append({"name": "explicit", "id": eids.pop(), "type": rt(), "target": target()})
            elif z < .9:
                ops.append({"name": "reload"})
            else:
                l = [{"id": "p%d" % i if rng.random() < .4 else "rId%d" % (3 * i + 1), "type": rt(), "target": target(), "mode": "Internal"} for i in range(rng.randint(0, 5))]
                ops.append({"name": "parse", "list": l, "xml": xmltext(l, rng)})
        ty = sorted({o["type"] for o in ops if "type" in o})
        look = [o["id"] for o in ops if "id" in o]
        look += [near(rng, x) for x in look[:6]]
        cases.append({"id": "rnd-%d" % n, "kind": "rels", "ids": ["rId%d" % i for i in range(0, 14)] + ["custom", "p0", "none", "r&d"] + look, "types": ty, "ops": ops})
    l = [{"id": "rId1", "type": OD + "hyperlink", "target": "https://ex.com/", "mode": "External"}]
    cases.append({"id": "kf-external-mode", "kind": "rels", "ids": ["rId1"], "types": [OD + "hyperlink"], "ops": [{"name": "parse", "list": l, "xml": xmltext(l, rng)}]})

    ctc = []
    for n in range(60 if chk.quick else 1500):
        ops = [{"name": "none"}] if n % 3 == 0 else []
        for _ in range(rng.randint(1, 12)):
            z = rng.random()
            if z < .2:
                ops.append({"name": "default", "key": rng.choice(["png", "jpg", "emf", "xlsx", "fntdata", "a&b", "bin", "pn", "pngx", "a&amp;b"]), "ct": rng.choice(["image/x-emf", "application/x", "text/<x>", "a/b;c=\"d\""])})
            elif z < .4:
                ops.append({"name": "override", "key": rng.choice(["/ppt/slides/slide1.xml", "/ppt/charts/chart2.xml", "/a&b.xml", "/x y.xml", "/x  y.xml", "/a&amp;b.xml", "/ppt/slides/slide10.xml", "/ppt/slides/slide1.xml.rels"]), "ct": rng.choice(["application/x", "application/vnd.foo+xml", "a/<b>"])})
            elif z < .85:
                ops.append({"name": rng.choice(["presentation", "slide", "slide", "layout", "master", "theme", "notes", "chart", "core", "app"]), "n": rng.choice([1, 2, 3, 10, 11, 1000])})
            else:
                ops.append({"name": "reload"})
        ctc.append({"id": "ct-%d" % n, "kind": "ctypes", "ops": ops})
    cases += ctc

    def reset(c):
        if c["kind"] == "rels":
            return {"kind": "rels", "ids": [tok(x) for x in c["ids"]], "types": [tok(x) for x in c["types"]]}
        return {"kind": "ct"}

    def trel(r):
        return {"id": tok(r["id"]), "type": tok(r["type"]), "target": tok(r["target"])}

    def conv(o, c):
        return dict(name=o["name"], type=tok(o.get("type", "")), target=tok(o.get("target", "")), id=tok(o.get("id", "")),
                    list=[dict(trel(r), mode=r["mode"]) for r in o.get("list", [])], key=tok(o.get("key", "")), ct=tok(o.get("ct", "")), n=str(o.get("n", "")))

    def obs(ob, o, c):
        root = xml_doc(ob["xml"])
        if c["kind"] == "rels":
            x = []
            if root is not None:
                for r in root.iter("{%s}Relationship" % NS):
                    x.append({"id": tok(r.get("Id", "?")), "type": tok(tname(r.get("Type", "?"))), "target": tok(r.get("Target", "?")), "mode": r.get("TargetMode", "Internal")})
            return {"ret": tok(ob["ret"]), "all": [trel(r) for r in ob["all"]], "get": [trel(r) for r in ob["get"]], "by": [[tok(i) for i in b] for b in ob["by"]],
                    "len": ob["len"], "empty": ob["empty"], "wf": root is not None, "xml": x, "backok": ob["back"]["ok"], "back": [trel(r) for r in ob["back"]["all"]]}
        ns = "{http://schemas.openxmlformats.org/package/2006/content-types}"
        d, v = [], []
        if root is not None:
            d = [{"k": tok(e.get("Extension", "?")), "ct": tok(e.get("ContentType", "?"))} for e in root.iter(ns + "Default")]
            v = [{"k": tok(e.get("PartName", "?")), "ct": tok(e.get("ContentType", "?"))} for e in root.iter(ns + "Override")]
        return {"ret": tok(ob["ret"]), "wf": root is not None, "d": d, "o": v}
    binary = vlib.build_harness()
    res = vlib.exec_cases(binary, cases, chk.scratch)
    chk.judge("RelsTrace", "RelsTrace.cfg", op_trace(cases, res, reset, conv, obs))
    chk.assumptions += ["explicit ids are distinct (the caller's duty); at most 12 operations per history"]
    return chk.finish({c["id"]: c for c in cases})
