"""Files damaged as the model says and at random, given to every way to read a file; text soup given to everything that reads text."""
import json, os, random, re, io, zipfile, xml.parsers.expat
from concurrent.futures import ProcessPoolExecutor
from lib import vlib, deckgen, damage, soup
from lib.vlib import tok
from checks import deckcommon as dc

CALLS = ["package", "reader", "editor", "import", "repair", "validate", "compress", "analyze"]
WANT = {"bullets", "table", "shapes", "links", "images", "cxns", "charts", "codes", "notes"}
KNOWN = {"pres": "ppt/presentation.xml", "prel": "ppt/_rels/presentation.xml.rels", "core": "docProps/core.xml", "types": "[Content_Types].xml"}
NASTY = [b"", b"<", b"<a>", b"\x00" * 10, b"<?xml version='1.0'?>", b"<a><b></a>", b"&", b"<a b='1' b='2'/>", b"]]>", b"<a>&nope;</a>", b"\xff\xfe<\x00a\x00/\x00>\x00", b"<a", b"text", b"<a></a", b"<a b=c/>"]
VALUES = ["4294967295", "4294967296", "18446744073709551615", "99999999999999999999999", "-1", "-9223372036854775808", "", "x", "1e9", "0", "é", "2147483648", "NaN"]


def files_of(cls, parts):
    if cls in KNOWN:
        return [KNOWN[cls]]
    if cls.isdigit():
        return ["ppt/slides/slide%s.xml" % cls]
    return sorted(n for n in parts if (n.endswith(".xml") or n.endswith(".rels")) and n not in KNOWN.values() and not re.fullmatch(r"ppt/slides/slide\d+\.xml", n))


def class_of(n):
    for c, k in KNOWN.items():
        if k == n:
            return c
    m = re.fullmatch(r"ppt/slides/slide(\d+)\.xml", n)
    return m.group(1) if m else "more"


def deep(rng):
    tag, n = rng.choice([b"a", b"p:grpSp", b"x y='1'"]), rng.choice([600, 2000, 20000, 200000])
    return (b"<" + tag + b">") * n + (b"</" + tag.split(b" ")[0] + b">") * n if b":" not in tag else b'<p:grpSp xmlns:p="p">' + b"<p:grpSp>" * n + b"</p:grpSp>" * (n + 1)


def spoil(b, rng):
    """something that is no XML document at all, or nested beyond any sense"""
    r = rng.random()
    if r < .3:
        return rng.choice(NASTY)
    if r < .5:
        return deep(rng)
    if r < .8 and len(b) > 20:
        return b[:rng.choice([1, len(b) // 3, len(b) // 2, b.rstrip().rfind(b"<"), len(b.rstrip()) - 1])]
    k = b.find(b"?>")
    return b[:k + 2] + b"\n<\xc3\xa9" + b[k + 3:] if r < .9 else b + b"<again/>"


def twist(b, rng):
    """changed in some way nothing is known about"""
    els = list(re.finditer(rb'<[a-zA-Z:]+[^<>]*/>|<([a-zA-Z:]+)[^<>]*>[^<>]*</\1>', b))
    ats = list(re.finditer(rb' [a-zA-Z:]+="[^"]*"', b))
    for _ in range(rng.choice([1, 1, 3, 10])):
        k = rng.choice(["flip", "dup", "del", "swap", "num", "attr", "utf", "target", "nest", "many"])
        if k == "flip" and b:
            a = bytearray(b)
            a[rng.randrange(len(a))] = rng.randrange(256)
            b = bytes(a)
        elif k in ("dup", "del", "swap") and els:
            x, y = rng.choice(els).group(0), rng.choice(els).group(0)
            b = b.replace(x, x + x if k == "dup" else b"" if k == "del" else y, 1)
        elif k == "num":
            ms = re.findall(rb'"-?\d+"', b)
            if ms:
                b = b.replace(rng.choice(ms), b'"' + rng.choice(VALUES).encode() + b'"', rng.choice([1, 5]))
        elif k == "attr" and ats:
            b = b.replace(rng.choice(ats).group(0), rng.choice([b"", b' x="\xc3\xa9"']), 1)
        elif k == "utf":
            b = b.replace(b"e", rng.choice([b"\xc3\xa9", b"\xff", b"\xed\xa0\x80"]), rng.choice([1, 5]))
        elif k == "target":
            b = re.sub(rb'Target="[^"]*"', lambda m: rng.choice([m.group(0), b'Target=""', b'Target="../../../../x"', b'Target="/"', b'Target="//"', b'Target="."', b'Target="slides/"', b'Target="\xc3\xa9"', b'Target="_rels/.rels"']), b)
        elif k == "nest":
            n = rng.choice([5, 100, 400, 5000])
            b = b.replace(b"</p:spTree>", b"<p:grpSp>" * n + b"</p:grpSp>" * n + b"</p:spTree>", 1)
        elif k == "many" and els:
            x = rng.choice(els).group(0)
            b = b.replace(x, x * rng.choice([50, 300]), 1)
    return b


def is_xml(b):
    try:
        xml.parsers.expat.ParserCreate(namespace_separator=" ").Parse(b, True)
        return True
    except (xml.parsers.expat.ExpatError, ValueError, LookupError):
        return False


def zipped(parts, rng, twisted):
    f = io.BytesIO()
    ks = list(parts)
    if twisted and rng.random() < .5:
        rng.shuffle(ks)
    with zipfile.ZipFile(f, "w", rng.choice([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED]) if twisted else zipfile.ZIP_DEFLATED) as z:
        for n in ks:
            z.writestr(n, parts[n])
    return f.getvalue()


def prepare(job):
    c, src, dst = job
    rng = random.Random("%s/%s" % (c["id"], c["seed"]))
    first = damage.load(src)
    parts = dict(first)
    st = dict(c["f"]["st"])
    for cls, s in sorted(st.items()):
        if s == "good":
            continue
        fs = files_of(cls, first)
        for n in [rng.choice(fs)] if cls == "more" and rng.random() < .7 else fs if cls != "more" else rng.sample(fs, min(3, len(fs))):
            if s == "gone":
                parts.pop(n, None)
            elif s == "bad":
                v = spoil(first[n], rng)
                parts[n] = v if v[:1] == b"<" and len(v) > 9000 or not is_xml(v) else b"<"
            else:
                parts[n] = twist(first[n], rng)
    data = zipped(parts, rng, c["id"][0] == "r")
    box = c["f"]["box"]
    if box == "cut":
        data = data[:rng.choice([rng.randint(0, len(data) - 1), rng.randint(0, min(len(data) - 1, 60)), len(data) - 1 - rng.randrange(60)])]
        if b"PK\x05\x06" in data:  # the end of an embedded workbook looks like the end of the file
            box = "flip"
    elif box == "flip":
        b = bytearray(data)
        for _ in range(rng.choice([1, 2, 5, 20])):
            pos = rng.randrange(len(b)) if rng.random() < .4 else len(b) - 1 - rng.randrange(min(len(b), 3000))
            b[pos] = rng.randrange(256)
        data = bytes(b)
    elif box == "tail":
        data = data + rng.choice([b"\x00" * 5, b"tail" * rng.randint(1, 20000), data[:200], data])
    elif box == "lead":
        data = rng.choice([b"junk", b"\x00" * 999, b"PK\x03\x04", b"#!/bin/sh\n"]) + data
    with open(dst, "wb") as f:
        f.write(data)
    return {"box": box, "n": c["f"]["n"], "st": st, "entries": len(parts)}


def observe(v, what):
    o = {"end": v["end"], "changed": False}
    for k in ("n", "beyond", "all", "text", "ops", "left", "valid", "differ"):
        if k in v and not (k == "text" and v["end"] != "ok"):
            o[k] = v[k]
    if "again" in v:
        o["again"] = -1 if v["again"] is None else v["again"]
    if "slides" in v:
        o["slides"] = [x if x == "err" else tok(json.dumps(x)) for x in v["slides"]]
    if "title" in v:
        o["title"] = tok(v["title"])
    return o


def run(chk):
    q, rng = chk.quick, chk.rng
    chk.assumptions += ["the debug build, whose arithmetic is checked, on a thread of 2 MB stack", "a call that takes over a minute hangs",
                        "a file cut anywhere before its end is refused; a part that is no XML, or nested deeper than 512, is refused"]
    em = sorted(chk.model("FaultsMC", "FaultsMC.cfg" if q else "FaultsMC_thorough.cfg", timeout=800), key=str)
    binary = vlib.build_harness("md,web")
    bases = [deckgen.deck(rng, "base-%d" % i, want=WANT, n=n, settings=deckgen.settings(rng) if i % 2 else {}) for i, n in enumerate([1, 2, 3, 1, 2, 3, 4, 2, 9])]
    for d in bases:
        d.update(entries=["mem"], kind="deck")
    res = vlib.exec_cases(binary, bases, chk.scratch)
    src = {}
    for d in bases:
        path = dc.outcome(res[d["id"]], "mem")[2]
        if path:
            src.setdefault(len(d["slides"]), []).append((d["id"], path))
    if set(src) != {1, 2, 3, 4, 9}:
        chk.bad("decks", 0, "B01:decks-not-generated")
        return chk.finish({})
    read = vlib.exec_cases(binary, [{"id": b, "kind": "brute", "path": p, "calls": ["reader"]} for v in src.values() for b, p in v], chk.scratch)
    was = {}
    for b, r in read.items():
        v = r.get("res", {}).get("reader", {})
        if v.get("end") != "ok":
            chk.bad(b, 0, "B01:readable-file-refused")
            return chk.finish({})
        was[b] = observe(v, "reader")
    cases = []
    for k, f in enumerate(em if len(em) <= (900 if q else 2500) else rng.sample(em, 900 if q else 2500)):
        b, p = src[f["n"]][k % len(src[f["n"]])]
        cases.append({"id": "m-%d" % k, "f": f, "base": b, "src": p})
    for k in range(500 if q else 5000):
        n = rng.choice(sorted(src))
        b, p = rng.choice(src[n])
        cl = [str(i) for i in range(1, n + 1)] + sorted(KNOWN) + ["more"]
        st = {x: "good" for x in cl}
        for x in rng.sample(cl, rng.choice([0, 1, 1, 2, 3, 4])):
            st[x] = rng.choice(["gone", "bad", "odd", "odd"])
        cases.append({"id": "r-%d" % k, "f": {"box": rng.choice(["whole"] * 5 + ["cut", "flip", "flip", "tail", "lead"]), "n": n, "st": st}, "base": b, "src": p})
    for c in cases:
        c["seed"] = chk.seed
    texts = []
    kinds = sorted(soup.KINDS) + ["picture"] + ["markdown"] * 4 + ["html"] * 2
    parts = damage.load(src[4][0][1])
    for k in range(3000 if q else 40000):
        w = rng.choice(kinds)
        t = soup.text(rng, w)
        like = {"xml": None, "well-formed": None, "slide": "ppt/slides/slide1.xml", "slide-part": "ppt/slides/slide2.xml", "relationships": "ppt/slides/_rels/slide1.xml.rels", "types": KNOWN["types"], "properties": KNOWN["core"], "presentation": KNOWN["pres"]}
        if w in like and rng.random() < .6:
            t = twist(parts[like[w] or rng.choice(sorted(n for n in parts if n.endswith((".xml", ".rels"))))], rng).decode("utf-8", "replace")
        texts.append({"id": "t-%d" % k, "kind": "text", "what": w, "src": t, "timeout": 60})
    ddir = os.path.join(chk.scratch, "hurt")
    os.makedirs(ddir, exist_ok=True)
    for b in dc.batches(cases, 1500):
        jobs = [(c, c["src"], os.path.join(ddir, c["id"] + ".pptx")) for c in b]
        with ProcessPoolExecutor(max_workers=vlib.NCPU) as ex:
            files = list(ex.map(prepare, jobs, chunksize=8))
        res = vlib.exec_cases(binary, [{"id": c["id"], "kind": "brute", "path": j[2], "calls": CALLS, "timeout": 60} for c, j in zip(b, jobs)], chk.scratch)
        lines = []
        for c, j, f in zip(b, jobs, files):
            lines.append({"case": c["id"], "i": 0, "op": dict(f, name="reset", was=was[c["base"]]["slides"], title=was[c["base"]]["title"]), "obs": {}})
            r = res[c["id"]]
            v = {"harness": {"end": "hang" if r["fatal"] == "hang" else "panic"}} if "fatal" in r else r["res"]
            if "panic" in v:
                v = {"harness": {"end": "panic"}}
            for i, (w, x) in enumerate((w, x) for w, x in v.items() if w != "changed"):
                o = observe(x, w)
                o["changed"] = bool(v.get("changed"))
                lines.append({"case": c["id"], "i": i + 1, "op": {"name": "call", "what": w}, "obs": o})
            os.remove(j[2])
        chk.judge("FaultsTrace", "FaultsTrace.cfg", lines)
    for b in dc.batches(texts, 8000):
        res = vlib.exec_cases(binary, b, chk.scratch)
        lines = []
        for c in b:
            r = res[c["id"]]
            end = ("hang" if r["fatal"] == "hang" else "panic") if "fatal" in r else r["res"].get("end", "panic")
            lines.append({"case": c["id"], "i": 0, "op": {"name": "reset", "box": "whole", "n": 0, "st": {"more": "good"}, "was": [], "title": "", "entries": 0}, "obs": {}})
            lines.append({"case": c["id"], "i": 1, "op": {"name": "text", "what": c["what"]}, "obs": {"end": end}})
        chk.judge("FaultsTrace", "FaultsTrace.cfg", lines)
    chk.notes["texts"] = len(texts)
    return chk.finish(dict({c["id"]: {k: v for k, v in c.items() if k != "src"} for c in cases}, **{c["id"]: c for c in texts}))
