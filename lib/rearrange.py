"""The same presentation as another producer may leave it: slides shown in another order than their parts
are numbered, parts and relationships with other names, slides that are no longer listed, other spelling."""
import os, re
from . import damage, project as pj
from .damage import PRES, PRELS, CORE, REL, attr

STEMS = ["slide%d", "slide%d", "slide%d", "slide0%d", "page%d", "slide-%d", "slideX%d"]


def names(n, rng):
    style = rng.choice(["same", "turned", "turned", "gaps", "gaps", "odd"])
    ks = list(range(1, n + 1))
    if style == "turned":
        rng.shuffle(ks)
    elif style in ("gaps", "odd"):
        ks = rng.sample(range(1, 3 * n + 2), n)
    return [(rng.choice(STEMS) if style == "odd" else "slide%d") % k for k in ks]


def ids(n, rng):
    style = rng.choice(["high", "high", "words", "mixed"])
    ks = rng.sample(range(100, 100 + 4 * n), n)
    return ["rId%d" % k if style == "high" or (style == "mixed" and i % 2) else "R%xa" % k for i, k in enumerate(ks)]


def rearrange(parts, order, rng, how=(), stems=None):
    """order: numbers of the slides listed, in the order they are shown"""
    n = len([x for x in parts if re.fullmatch(r"ppt/slides/slide\d+\.xml", x)])
    stems, rids = stems or names(n, rng), ids(n, rng)
    new = {"ppt/slides/slide%d.xml" % (i + 1): "ppt/slides/%s.xml" % s for i, s in enumerate(stems)}
    out = {}
    for name, data in parts.items():
        if name.endswith(".rels"):
            src = pj.rels_source(name)
            rel = lambda m: re.sub(r'Target="[^"]*"', 'Target="%s%s"' % (attr(m.group(0), "Target").rpartition("/")[0] + ("/" if "/" in attr(m.group(0), "Target") else ""), os.path.basename(new[pj.resolve(src, attr(m.group(0), "Target"))])), m.group(0)) \
                if attr(m.group(0), "TargetMode") != "External" and pj.resolve(src, attr(m.group(0), "Target")) in new else m.group(0)
            t = REL.sub(rel, data.decode())
            if name == PRELS:
                els = [m.group(0) for m in REL.finditer(t)]
                head, tail = t[:t.index(els[0])], t[t.rindex(els[-1]) + len(els[-1]):]
                byname = {v: k for k, v in new.items()}
                for i, el in enumerate(els):
                    was = byname.get(pj.resolve(PRES, attr(el, "Target")))
                    if was:
                        els[i] = re.sub(r' Id="[^"]*"', ' Id="%s"' % rids[int(re.search(r"(\d+)\.xml", was).group(1)) - 1], el)
                rng.shuffle(els)
                t = head + "".join(els) + tail
            data = t.encode()
            if src in new:
                d, f = os.path.split(new[src])
                name = "%s/_rels/%s.rels" % (d, f)
        elif name == CORE["types"]:
            data = re.sub(r'PartName="/([^"]*)"', lambda m: 'PartName="/%s"' % new.get(m.group(1), m.group(1)), data.decode()).encode()
        elif name == PRES:
            nums = rng.sample(range(256, 256 + 9 * n), n)
            lst = "".join('<p:sldId id="%d" r:id="%s"/>' % (nums[k - 1], rids[k - 1]) for k in order)
            data = re.sub(r"<p:sldIdLst>.*?</p:sldIdLst>", "<p:sldIdLst>%s</p:sldIdLst>" % lst, data.decode(), flags=re.S).encode()
        out[new.get(name, name)] = data
    return damage.rewrite(out, how, rng)


def properties(parts, rng):
    """document properties another producer may have written; returns what they say"""
    from xml.sax.saxutils import escape
    from . import deckgen
    v = {"creator": deckgen.text(rng), "by": deckgen.text(rng), "created": "20%02d-0%d-1%dT0%d:00:00Z" % tuple(rng.randint(1, 9) for _ in range(4)),
         "modified": "20%02d-0%d-1%dT0%d:30:00Z" % tuple(rng.randint(1, 9) for _ in range(4)), "revision": rng.choice([0, 1, 2, 17, 65536])}
    for k in ("creator", "by"):
        v[k] = "".join(ch for ch in v[k] if ch >= " " and ch not in "\ufffe\uffff").strip() or "x"
    t = parts["docProps/core.xml"].decode()
    have = re.search(r"<dc:title>.*?</dc:title>", t, re.S)
    els = ["<dc:creator>%s</dc:creator>" % escape(v["creator"]), "<cp:lastModifiedBy>%s</cp:lastModifiedBy>" % escape(v["by"]), "<cp:revision>%d</cp:revision>" % v["revision"],
           '<dcterms:created xsi:type="dcterms:W3CDTF">%s</dcterms:created>' % v["created"], '<dcterms:modified xsi:type="dcterms:W3CDTF">%s</dcterms:modified>' % v["modified"]] + ([have.group(0)] if have else [])
    for k, el in list(v.items()):
        if rng.random() < .15:      # absent
            i = {"creator": 0, "by": 1, "revision": 2, "created": 3, "modified": 4}[k]
            els[i] = ""
            v[k] = -1 if k == "revision" else ""
    rng.shuffle(els)
    head = re.search(r"<cp:coreProperties[^>]*>", t)
    parts["docProps/core.xml"] = (t[:head.end()] + "".join(els) + "</cp:coreProperties>").encode()
    return v


HOWS = [(), (), ("line",), ("attrs",), ("abs",), ("quote",), ("order",), ("line", "attrs", "order"), ("line", "quote", "abs", "order")]


def prepare(chk, binary, cases):
    """cases with a 'rearr' seed: generated, rearranged into case['file']; the slides of the case become those shown"""
    import random
    from . import vlib
    todo = [c for c in cases if "rearr" in c]
    gen = [dict(c, kind="deck", entries=["mem"]) for c in todo]
    res = vlib.exec_cases(binary, gen, chk.scratch)
    for c in todo:
        rng = random.Random(c["rearr"])
        r = res[c["id"]].get("res", {}).get("mem", {})
        if "path" not in r:
            continue            # left as it is: the generator's fault shows when the case runs
        n = len(c["slides"])
        order = list(range(1, n + 1))
        if rng.random() < .75:
            rng.shuffle(order)
        if n > 1 and rng.random() < .3:
            order = order[:rng.randint(1, n - 1)]
        stems = None
        if "layout" in c:       # as the model has it
            stem = rng.choice(["slide%d", "slide%d", "page%d", "slide0%d"])
            order, stems = c["layout"]["ls"], [stem % k for k in c["layout"]["fs"]]
        parts = rearrange(damage.load(r["path"]), order, rng, rng.choice(HOWS), stems)
        os.remove(r["path"])
        c["core"] = properties(parts, rng)
        c["file"] = os.path.join(chk.scratch, c["id"] + "-rearranged.pptx")
        damage.dump(parts, c["file"])
        c["order"] = order
        c["slides"] = [c["slides"][k - 1] for k in order]
