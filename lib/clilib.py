"""The command line in a scratch directory: files as the specification has them, commands run, files read back."""
import html, json, os, re, shutil, stat, struct, subprocess, zlib
from . import exportlib, mdgen, pdflib
from .project import A, P, R, Pkg
from .vlib import ROOT, ToolError, cargo_env, log, tok

PAST = 1000000000
WORDS = ["One", "alpha", "B & C", "a<b", "x > y", "\"q\"", "it's", "naïve", "日本", "Two words", "3.5", "100%", "tab&amp;", "END"]


def build():
    env = cargo_env()
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--features", "cli,web2ppt", "--bin", "pptcli", "--manifest-path", os.environ.get("VREPO", "/repo") + "/Cargo.toml"], env=env, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("building pptcli failed:\n" + r.stderr[-4000:])
    return os.path.join(env["CARGO_TARGET_DIR"], "debug", "pptcli")


# ---------------------------------------------------------------- contents
def md(slides):
    out = []
    for s in slides:
        out.append("# " + mdgen.esc(s["t"]))
        if s["b"]:
            out.append("\n".join("- " + mdgen.esc(b) for b in s["b"]))
        if s["tab"]:
            rows = ["| " + " | ".join(mdgen.esc(c) for c in r) + " |" for r in s["tab"]]
            out.append("\n".join([rows[0], "|" + "---|" * len(s["tab"][0])] + rows[1:]))
        for o in s["o"]:
            out.append("```\n%s\n```" % o)
    return "\n\n".join(out) + "\n"


def page(slides):
    e = html.escape
    out = ["<!DOCTYPE html>\n<html><body>"]
    for s in slides:
        out.append("<h1>%s</h1>" % e(s["t"]))
        if s["b"]:
            out.append("<ul>%s</ul>" % "".join("<li>%s</li>" % e(b) for b in s["b"]))
        if s["tab"]:
            out.append("<table>%s</table>" % "".join("<tr>%s</tr>" % "".join("<td>%s</td>" % e(c) for c in r) for r in s["tab"]))
        for o in s["o"]:
            out.append("<pre><code>%s</code></pre>" % e(o))
    return "\n".join(out + ["</body></html>"])


def png(w):
    def chunk(t, d):
        return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, 1, 8, 2, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(b"\0" + b"\0\0\0" * w)) + chunk(b"IEND", b"")


def data(v):
    return {"md": lambda: md(v["slides"]), "html": lambda: page(v["slides"]), "junk": lambda: "\0"}[v["k"]]().encode() + (b"\xff\xfe" if v["k"] == "junk" else b"")


# ---------------------------------------------------------------- reading back
def paras(sp):
    out = []
    for p in sp.iter(A + "p"):
        out.append("".join(t.text or "" for t in p.iter(A + "t")))
    return out


def read_deck(b, layouts=False):
    pkg = Pkg(b)
    if not pkg.zip_ok or pkg.bad:
        return None
    slides = []
    for part in pkg.slides():
        root = pkg.xml.get(part)
        if root is None:
            return None
        s = {"t": "", "b": [], "tab": [], "o": [], "pics": []}
        for sp in root.iter():
            if sp.tag == P + "sp":
                ph, name = sp.find("%snvSpPr/%snvPr/%sph" % (P, P, P)), sp.find("%snvSpPr/%scNvPr" % (P, P)).get("name", "")
                ty = ph.get("type", "body") if ph is not None else {"Title": "title", "Content": "body"}.get(name, "")
                t = [tok(x) for x in paras(sp)]
                if ty in ("title", "ctrTitle"):
                    s["t"] = tok("\n".join(paras(sp)))
                elif ty == "body":
                    s["b"] += t
                elif any(t):
                    s["o"].append(tok("\n".join(paras(sp))))
            elif sp.tag == A + "tbl":
                s["tab"] += [[tok("\n".join(paras(c))) for c in r.iter(A + "tc")] for r in sp.iter(A + "tr")]
            elif sp.tag == P + "pic":
                blip = next(sp.iter(A + "blip"))
                d = pkg.parts.get(pkg.target(part, blip.get(R + "embed")) or "", b"")
                s["pics"].append(struct.unpack(">I", d[16:20])[0] if d[:8] == b"\x89PNG\r\n\x1a\n" else -1)
        if layouts:
            m = re.search(r"slideLayout(\d+)\.xml$", next((r["tg"] for r in pkg.of_type(part, "slideLayout")), ""))
            s["layout"] = int(m.group(1)) if m else 0
        slides.append(s)
    core = pkg.xml.get("docProps/core.xml")
    t = None if core is None else core.find("{http://purl.org/dc/elements/1.1/}title")
    return {"k": "deck", "title": tok((t.text or "") if t is not None else ""), "slides": slides}


def read_web(b):
    w = {"k": "web", "title": "", "slides": []}
    bs = exportlib.html_blocks(b.decode("utf-8", "replace"))
    if not any(x["k"] == "slide" for x in bs) or any(x["k"] == "x" for x in bs):
        return None
    cover = False
    for x in bs:
        t = "~a;".join(x["t"])
        if x["k"] == "title":
            w["title"] = t
        elif x["k"] == "slide":
            cover = x["n"] == 0
            if not cover:
                w["slides"].append({"t": "", "b": [], "tab": []})
        elif cover or not w["slides"]:
            continue
        elif x["k"] == "h":
            w["slides"][-1]["t"] = t
        elif x["k"] == "li":
            w["slides"][-1]["b"].append(t)
        elif x["k"] == "table":
            w["slides"][-1]["tab"] += [["~a;".join(c["t"]) for c in r] for r in x["rows"]]
    return w


def read(b, like):
    if b[:4] == b"PK\3\4":
        return read_deck(b) or {"k": "broken"}
    if b[:5] == b"%PDF-":
        pdf = pdflib.Pdf(b)
        runs = [pdflib.page(pdf, p)["runs"] for p in getattr(pdf, "pages", [])]
        return {"k": "pdf", "sound": not pdf.faults, "pages": [tok(pdflib.decode(r[0])) if r else "" for r in runs]}
    if b[:8] == b"\x89PNG\r\n\x1a\n":
        return {"k": "png", "w": struct.unpack(">I", b[16:20])[0]}
    if b"<html" in b[:200]:
        return read_web(b) or {"k": "broken"}
    return {"k": "other"}


# ---------------------------------------------------------------- the pdftoppm of the machine
STUB = r"""#!/bin/sh
# pdftoppm -png IN PREFIX
[ "$1" = -png ] || exit 99
case %(mode)s in
  fails) echo "pdftoppm: cannot" >&2; exit 1;;
esac
n=$(grep -ac '/Type /Page\b' "$2" 2>/dev/null)
head -c 5 "$2" | grep -q '%%PDF-' || { echo "not a PDF" >&2; exit 1; }
for i in $(seq 1 "$n" | sort -r); do
  case %(mode)s in
    padded) f=$(printf '%%s-%%0*d.png' "$3" "${#n}" "$i");;
    *) f="$3-$i.png";;
  esac
  case %(mode)s in
    garbles) echo garbage > "$f" || exit 1;;
    *) cp "%(pngs)s/$i.png" "$f" || exit 1;;
  esac
done
exit 0
"""


def tools(scratch):
    """directories for PATH: one for each pdftoppm, and one without"""
    pngs = os.path.join(scratch, "pngs")
    os.makedirs(pngs)
    for i in range(1, 120):
        with open("%s/%d.png" % (pngs, i), "wb") as f:
            f.write(png(i))
    out = {}
    for m in ("works", "padded", "fails", "garbles", "none"):
        d = out[m] = os.path.join(scratch, "bin-" + m)
        os.makedirs(d)
        if m != "none":
            with open(d + "/pdftoppm", "w") as f:
                f.write(STUB % {"mode": m, "pngs": pngs})
            os.chmod(d + "/pdftoppm", 0o755)
    return out


# ---------------------------------------------------------------- running
def path(n):
    b = n["s"] + ("." + n["e"] if n["e"] else "")
    return n["d"] + "/" + b if n["d"] else b


def name(p):
    d, b = os.path.split(p)
    s, e = os.path.splitext(b)
    return {"d": d, "s": s, "e": e[1:]}


def argv(c):
    i = [path(n) for n in c["in"]]
    o = [path(n) for n in c["out"]]
    t = ["--title=" + x for x in c["title"]]
    k = c["name"]
    if k == "usage":
        return c["argv"]
    if k == "create":
        return [k] + o + t + (["--slides", str(c["n"])] if c["n"] != 1 or not t else []) + (["--template", i[0]] if i else [])
    if k == "md2ppt":
        return [c.get("alias", k)] + i + o + t
    if k == "html2ppt":
        return [c.get("alias", k)] + i + o + t + (["--max-slides", str(c["maxs"])] if c["maxs"] != 50 else []) + (["--max-bullets", str(c["maxb"])] if c["maxb"] != 10 else []) + ([] if c["tables"] else ["--no-tables"]) + ([] if c["code"] else ["--no-code"])
    if k == "merge":
        return [k, "-o" if c.get("short") else "--output"] + o + i
    if k == "export":
        return [k] + i + o + (["--format", c["format"]] if c["format"] else [])
    if k == "validate":
        return [k] + i + (["--json"] if c["json"] else [])
    return [k] + i + o


def walk(root):
    fs, dirs = {}, {""}
    for d, ds, ns in os.walk(root):
        r = os.path.relpath(d, root)
        r = "" if r == "." else r
        dirs.add(r)
        for n in ns:
            p = os.path.join(d, n)
            fs[os.path.join(r, n) if r else n] = (os.lstat(p).st_mtime_ns, os.lstat(p).st_size)
    return fs, dirs


def run(job):
    """one case: its files, its commands; what was seen after each"""
    binary, bins, case, scratch = job
    root = os.path.join(scratch, case["id"])
    tmp = root + ".tmp"
    os.makedirs(root)
    os.makedirs(tmp)
    out = []
    try:
        for d in case["dirs"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f in case["fs"]:
            with open(os.path.join(root, path(f["n"])), "wb") as h:
                h.write(data(f["v"]))
        for c in case["cmds"]:
            before, _ = walk(root)
            for p in before:
                os.utime(os.path.join(root, p), (PAST, PAST))
            env = {"PATH": bins[c["tool"] if c["tool"] != "works" or not case.get("padded") else "padded"] + ":/usr/bin:/bin", "TMPDIR": tmp, "HOME": tmp, "LANG": "C.UTF-8"}
            try:
                r = subprocess.run([binary] + argv(c), cwd=root, env=env, capture_output=True, timeout=120)
                code, so, se = r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                code, so, se = 124, "", ""
            after, dirs = walk(root)
            ch = [p for p in sorted(after) if after[p][0] != PAST * 10 ** 9]
            o = {"exit": code if 0 <= code < 200 else 200, "gone": [tok(p) for p in before if p not in after], "same": [], "tmp": len(os.listdir(tmp)), "dirs": sorted(dirs), "said": bool(se.strip() or so.strip()), "json": "none", "info": [], "ch": []}
            for p in ch:
                with open(os.path.join(root, p), "rb") as h:
                    o["ch"].append({"n": name(p), "v": read(h.read(), p)})
            if c["name"] == "validate" and c["json"]:
                try:
                    j = json.loads(so)
                    o["json"] = "valid" if j["valid"] is True else "invalid"
                    if j["file"] != path(c["in"][0]) or j["error_count"] != sum(x["severity"] == "error" for x in j["issues"]) or (j["error_count"] > 0) == j["valid"]:
                        o["json"] = "inconsistent"
                except (ValueError, KeyError, TypeError):
                    o["json"] = "unreadable"
            if c["name"] == "info":
                m, n = re.search(r"^Title: (.*)$", so, re.M), re.search(r"^Slides: (.*)$", so, re.M)
                o["info"] = [tok(m.group(1) if m else ""), tok(n.group(1) if n else "none")]
            out.append(o)
            for e in os.listdir(tmp):
                q = os.path.join(tmp, e)
                shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
            if o["exit"] not in (0, 1, 2):
                o["stderr"] = tok(se[-300:])
                break
    finally:
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    return case["id"], out
