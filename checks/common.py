"""Turning executed operation sequences into judge traces."""
from lib import vlib
tok = vlib.tok


def op_trace(cases, results, reset, conv, obsconv):
    """One trace line per executed operation.
    reset(case) -> dict for the reset line's op; conv(op, case) -> op dict; obsconv(obs, op, case) -> obs dict.
    A panic or fatal outcome becomes an observation with panic=True (obsconv(None,...) supplies the shape)."""
    lines = []
    for c in cases:
        r = results[c["id"]]
        op = dict(reset(c))
        op["name"] = "reset"
        lines.append({"case": c["id"], "i": 0, "op": op, "obs": {}})
        if "fatal" in r:
            obs = [{"panic": "process " + r["fatal"]}]
        else:
            obs = r["res"] if isinstance(r["res"], list) else [r["res"]]
        for i, (o, ob) in enumerate(zip(c["ops"], obs)):
            d = conv(o, c)
            d["probe"] = bool(o.get("probe"))
            if "panic" in ob:
                x = {"panic": True}
            else:
                x = obsconv(ob, o, c)
                x["panic"] = False
            lines.append({"case": c["id"], "i": i + 1, "op": d, "obs": x})
        if len(obs) < len(c["ops"]) and not (obs and "panic" in obs[-1]):
            raise vlib.ToolError("short result for " + c["id"])
    return lines


def run_ops(chk, cases, reset, conv, obsconv, module, cfg, features="", binary=None, **kw):
    binary = binary or vlib.build_harness(features)
    results = vlib.exec_cases(binary, cases, chk.scratch)
    lines = op_trace(cases, results, reset, conv, obsconv)
    chk.judge(module, cfg, lines, **kw)
    return chk.finish({c["id"]: c for c in cases})


def group_probes(emitted, case_of, per=60, key=None):
    """Model transitions {pre: [...ops], try: op} -> cases that replay pre and probe each op on a clone."""
    import json
    by = {}
    for e in emitted:
        by.setdefault(json.dumps([key(e) if key else 0, e["pre"]], sort_keys=True), []).append(e)
    cases, n = [], 0
    for k in sorted(by):
        es = by[k]
        es.sort(key=lambda e: json.dumps(e["try"], sort_keys=True))
        for j in range(0, len(es), per):
            n += 1
            c = case_of(es[0])
            c["id"] = "mc-%d" % n
            c["ops"] = [dict(o) for o in es[0]["pre"]] + [dict(e["try"], probe=True) for e in es[j:j + per]]
            cases.append(c)
    return cases


METAS = ["<b>", "&amp;", "\"q\"", "it's", "a & b", "x<y>z", "  two  ", "é", "日本", "😀", "%20", "{x}", "]]>", "\\", "#", "a/b", "--"]


def rtext(rng, n=None, plain=0.3, edge=True):
    """Random printable text with XML metacharacters."""
    if rng.random() < plain:
        return rng.choice(["alpha", "Beta 2", "gamma delta", "Q3 results", "x"]) + str(rng.randint(0, 99))
    k = n or rng.randint(1, 4)
    s = "".join(rng.choice(METAS + ["ab", "Zz", " ", "7"]) for _ in range(k))
    if not edge:
        s = s.strip()
    return s or "t"


def xml_frag(s):
    """Well-formedness + parse of a fragment that uses the usual prefixes. Returns element or None."""
    import xml.etree.ElementTree as ET
    ns = {"a": "http://schemas.openxmlformats.org/drawingml/2006/main", "p": "http://schemas.openxmlformats.org/presentationml/2006/main",
          "r": "http://schemas.openxmlformats.org/officeDocument/2006/relationships"}
    try:
        return ET.fromstring("<root %s>%s</root>" % (" ".join('xmlns:%s="%s"' % kv for kv in ns.items()), s))
    except ET.ParseError:
        return None


def xml_doc(s):
    import xml.etree.ElementTree as ET
    try:
        return ET.fromstring(s)
    except (ET.ParseError, ValueError):
        return None


def near(rng, s):
    """A different text that a sloppy comparison would take for the same."""
    import unicodedata
    c = [s + " ", " " + s, s + s[-1:], s[:-1], s.upper(), s.lower(), s.swapcase(), s.title(), s.replace(" ", "  "), s.replace(" ", "\u00a0"), s.replace(" ", ""),
         s + "\u0301", s.replace("e", "\u00e9"), s.replace("&", "&amp;"), s + ".", s[::-1], s + "\u200b", s.replace("<", "&lt;"),
         unicodedata.normalize("NFD", s), unicodedata.normalize("NFKC", s), "0" + s, s + "0", s + "1", s + "2"]
    c = [x for x in c if x != s and x.strip()]
    return rng.choice(c) if c else s + "x"
