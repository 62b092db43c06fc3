"""Random decks for the exporters; blocks read from their HTML and Markdown."""
import base64, random, re
from html.parser import HTMLParser
from . import deckgen
from .vlib import tok, digest

BITS = ["a", "b1", "Zz", " ", " ", "\n", "*", "**", "_", "__", "#", "##", "-", "--", "---", "+", "=", "===", "1.", "2)", "1", ".", "`", "``", "```", "~~", "~~~", "|", "||", "\\", "\\|", "<", ">", "<b>",
        "</td>", "</li>", "</script>", "<!--", "-->", "&", "&amp;", "&lt", "&#42;", "[", "]", "[x](y)", "![i](j)", "(", ")", "!", ":", ":-", "\"", "'", "$", "%", "@", "{", "}", "é", "日本", "😀", "http://a.b/c_d",
        "<script>", "</pre>", "</code>", "<br>", "&nbsp;", "\u00a0", "\r\n", "\t", "    ", "> ", "- ", "* ", "# ", "[^1]", "---\n", "'''", ";", "</title>", "</h2>", "|-|", "T", "&&", "\n\n", "1. x"]


def text(rng, empty=.06, lines=True):
    if rng.random() < empty:
        return ""
    if rng.random() < .2:
        return rng.choice(deckgen.WORDS)
    s = "".join(rng.choice(BITS) for _ in range(rng.choice([1, 1, 2, 3, 4, 6])))
    return s if lines else " ".join(s.split("\n"))


def slide(rng, T=text):
    s = dict(deckgen.PLAIN)
    s["title"] = T(rng)
    s["layout"] = rng.choice(["", "", "Blank", "TwoColumn"])
    m = rng.choice([["add"], ["add", "sub", "num", "let", "styled"], ["raw"], ["content"], ["add", "style"]])
    s["b"] = [{"m": rng.choice(m), "t": T(rng), "st": deckgen.bstyle(rng), "lvl": rng.choice([0, 0, 1, 2]), "f": []} for _ in range(rng.choice([0, 0, 1, 2, 3, 5]))]
    if rng.random() < .4:
        t = deckgen.table(rng, False, maxr=4, maxc=4)
        for r in t["rows"]:
            for c in r["cells"]:
                if c["t"]:
                    c["t"] = T(rng)
        if rng.random() < .3:           # rows of different lengths
            for r in t["rows"]:
                if not any(c["gs"] or c["rs"] or c["hm"] or c["vm"] for q in t["rows"] for c in q["cells"]):
                    r["cells"] = r["cells"][:rng.randint(0, len(r["cells"]))] + [deckgen.cell(rng, False)] * rng.randint(0, 2)
        s["table"] = [t]
    if rng.random() < .35:
        s["codes"] = [{"t": T(rng) if rng.random() < .7 else "\n".join(T(rng) for _ in range(3)), "lang": rng.choice(["rust", "", "c++", "a b"]) if rng.random() < .6 else T(rng), "x": 0, "y": 0, "w": 9, "h": 9} for _ in range(rng.randint(1, 2))]
    if rng.random() < .4:
        s["notes"] = [T(rng)]
    if rng.random() < .25:
        s["images"] = [image(rng, T) for _ in range(rng.randint(1, 2))]
    return s


def image(rng, T):
    fmt = rng.choice(["PNG", "png", "JPEG", "jpg", "GIF", "SVG", "BMP"])
    return {"src": rng.choice(["bytes", "base64", "named", "missing"]), "name": "/nonexistent/" + T(rng).replace("\0", ""), "data": bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 10, 31]))).hex(), "fmt": fmt,
            "w": 5, "h": 5, "x": 0, "y": 0, "alt": deckgen.opt(rng, .4, lambda: T(rng)), "crop": [], "fx": []}


SEPS = [("---", "rule"), ("---", "rule"), ("***", "rule"), ("* * *", "rule"), ("<!-- slide -->", "html"), ("", "")]


def options(rng, plain=.35):
    b = lambda: rng.random() < .5
    h = {"default": rng.random() < plain, "notes": True, "nav": True, "light": True, "files": False, "dir": None}
    if not h["default"]:
        h.update(notes=b(), nav=b(), light=b(), files=b(), dir=rng.choice([None, "img", "a \"b\"<c>&d"]))
    m = {"default": rng.random() < plain, "numbers": True, "septext": "---", "sep": "rule", "notes": True, "tables": True, "images": True, "front": True}
    if not m["default"]:
        st, k = rng.choice(SEPS)
        m.update(numbers=b(), septext=st, sep=k, notes=b(), tables=b(), images=b(), front=b())
    return h, m


# ---------------------------------------------------------------- texts as lines
def lines(s):
    return [tok(" ".join(l.split())) for l in re.split("\r\n|\r|\n", s)]


def solid(s):
    return [l for l in lines(s) if l]


def flat(s):
    return [tok(" ".join(s.split()))]


def codelines(s):
    return [tok(l) for l in re.split("\r\n|\r|\n", s.rstrip("\r\n"))]


def info(s):
    return tok(" ".join(s.split()))


def source(i):
    if i["src"] == "missing":
        return None
    return digest(bytes.fromhex(i["data"]))


def abstract(d):
    out = []
    for s in d["slides"]:
        ops = [o for o in s["b"] if o["m"] != "style"]
        if any(o["m"] != "content" for o in ops):
            ops = [o for o in ops if o["m"] != "content"]
        tabs = [[[{"t": lines(c["t"]), "cov": c["hm"] or c["vm"], "cs": c["gs"][0] if c["gs"] else 1, "rs": c["rs"][0] if c["rs"] else 1} for c in r["cells"]] for r in t["rows"]] for t in s["table"]]
        out.append({"title": lines(s["title"]), "bullets": [lines(o["t"]) for o in ops], "tables": tabs, "codes": [{"lang": info(c["lang"]), "t": codelines(c["t"])} for c in s["codes"]],
                    "notes": [lines(n) for n in s["notes"] if n.strip()], "pics": [i["fmt"].lower().replace("jpeg", "jpg") for i in s["images"]],
                    "imgs": [("file" if d["html"]["files"] else x) for x in map(source, s["images"]) if x is not None]})
    return {"title": lines(d["title"]), "slides": out}


def block(k, t=(), a="", n=0, rows=()):
    return {"k": k, "t": list(t), "a": a, "n": n, "rows": list(rows)}


# ---------------------------------------------------------------- HTML
VOID = {"meta", "img", "br", "hr", "link", "input"}
ATTRS = {"html": set(), "head": set(), "body": set(), "meta": {"charset", "name", "content"}, "title": set(), "style": set(), "script": set(), "h1": set(), "h2": set(), "ul": set(), "ol": set(), "li": set(),
         "table": {"class"}, "tbody": set(), "thead": set(), "tr": set(), "td": {"colspan", "rowspan"}, "th": {"colspan", "rowspan"}, "pre": set(), "code": {"class"}, "img": {"src", "alt"}, "strong": set(),
         "button": {"onclick", "id"}, "span": {"id"}, "div": {"class", "id", "data-slide"}, "br": set()}
LEAVES = {"title", "h1", "h2", "li", "td", "th", "code", "notes", "button", "span", "number", "style", "script"}


class Page(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.out, self.stack, self.text, self.rows, self.scripts = [], [], "", None, []

    def x(self, what):
        self.out.append(block("x", [tok(what)]))

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        kind = tag
        if tag == "div":
            kind = {"slide title-slide": "slide", "slide": "slide", "slide-number": "number", "speaker-notes": "notes", "navigation-controls": "nav", "content": "div", "image-container": "div"}.get(a.get("class"), "?")
        if tag not in ATTRS or not set(a) <= ATTRS[tag] or len(a) != len(attrs) or kind == "?" or (tag == "code" and "class" in a and not a["class"].startswith("language-")):
            return self.x("<%s %s>" % (tag, sorted(a)))
        if any(s in LEAVES for s, _ in self.stack) and not (tag == "strong" and self.stack[-1][0] == "notes") and tag != "br":
            return self.x("%s in %s" % (tag, self.stack[-1][0]))
        if kind in ("button", "span") and not any(s == "nav" for s, _ in self.stack):
            return self.x(kind)
        if kind == "slide":
            self.out.append(block("slide", n=int(a.get("data-slide", "-1"))))
        elif kind == "nav":
            self.out.append(block("nav"))
        elif kind == "table":
            self.rows = []
        elif kind == "tr":
            if self.rows is None:
                return self.x("tr")
            self.rows.append([])
        elif kind == "br":
            self.text += "\n"
        elif kind == "img":
            src = a.get("src") or ""
            m = re.fullmatch(r"data:[a-z+/-]+;base64,([A-Za-z0-9+/=]*)", src)
            try:
                self.out.append(block("img", a=digest(base64.b64decode(m.group(1), validate=True)) if m else "file" if src else "none"))
            except ValueError:
                self.x("base64")
        if tag not in VOID:
            if kind in LEAVES and kind != "strong":
                self.text = ""
            self.stack.append((kind, a))

    handle_startendtag = handle_starttag

    def handle_endtag(self, tag):
        if not self.stack:
            return self.x("</%s>" % tag)
        kind, a = self.stack[-1]
        if tag != (kind if kind not in ("slide", "number", "notes", "nav") else "div"):
            return self.x("</%s> in %s" % (tag, kind))
        self.stack.pop()
        t, self.text = (self.text, "") if kind in LEAVES else (self.text, self.text)
        if kind == "title":
            self.out.append(block("title", flat(t)))
        elif kind in ("h1", "h2"):
            self.out.append(block("h", flat(t), n=int(kind[1])))
        elif kind == "li":
            self.out.append(block("li", solid(t)))
        elif kind == "notes" and not t.strip():
            pass                            # blank notes may be shown or not
        elif kind == "notes":
            self.out.append(block("notes", solid(t)))
        elif kind == "code":
            self.out.append(block("code", codelines(t), a=info(a["class"][9:]) if "class" in a else ""))
        elif kind in ("td", "th"):
            if not self.rows:
                return self.x(kind)
            try:
                self.rows[-1].append({"t": solid(t), "cs": int(a.get("colspan", 1)), "rs": int(a.get("rowspan", 1))})
            except ValueError:
                self.x("span")
        elif kind == "table":
            self.out.append(block("table", rows=self.rows or []))
            self.rows = None
        elif kind == "script":
            self.scripts.append(t)

    def handle_data(self, data):
        if self.stack and any(s in LEAVES for s, _ in self.stack):
            if self.stack[-1][0] != "strong":       # the label of the notes
                self.text += data
        elif data.strip():
            self.x("stray " + data.strip())

    def handle_comment(self, data):
        self.x("comment")

    def unknown_decl(self, data):
        self.x("decl")

    def handle_pi(self, data):
        self.x("pi")


def html_blocks(t):
    p = Page()
    p.feed(t)
    p.close()
    if p.stack:
        p.x("open " + p.stack[-1][0])
    return p.out


# ---------------------------------------------------------------- Markdown
def inline(ev, i):
    """text up to the matching end; (text, marks, next)"""
    t, marks = "", []
    while ev[i][0] != ")":
        e = ev[i]
        if e[0] == "t":
            t += e[1]
        elif e[0] == "(" and e[1] == "p":
            a, m, i = inline(ev, i + 1)
            t += "\n" + a + "\n"
            marks += m
            continue
        elif e[0] == "(":
            a, m, i = inline(ev, i + 1)
            t += a
            marks += [e[1] + ("=" + e[2] if len(e) > 2 and isinstance(e[2], str) else "")] + m
            continue
        else:
            marks.append(e[0] + (e[1] if len(e) > 1 else ""))
        i += 1
    return t, marks, i + 1


def md_blocks(ev):
    out, i = [], 0

    def add(k, t, marks, **kw):
        out.append(block(k, t, **kw) if not marks else block("x", t + [tok(m) for m in marks]))
    while i < len(ev):
        e = ev[i]
        if e[0] == "rule":
            out.append(block("rule"))
            i += 1
        elif e[0] != "(":
            out.append(block("x", [tok(str(e[1:]))]))
            i += 1
        elif e[1] == "h":
            t, m, i = inline(ev, i + 1)
            add("h", flat(t), m, n=e[2])
        elif e[1] == "code":
            t, m, i = inline(ev, i + 1)
            add("code", codelines(t), m, a=info(e[2]))
        elif e[1] == "quote":
            t, m, i = inline(ev, i + 1)
            if not t.strip() and not m and out and out[-1]["k"] == "label":
                out.pop()                   # blank notes
            else:
                add("quote", solid(t), m)
        elif e[1] == "html":
            i += 1
            t = ""
            while ev[i][0] != ")":
                t += ev[i][1]
                i += 1
            i += 1
            add("html", [], [] if t.strip() == "<!-- slide -->" else ["html " + t])
        elif e[1] == "list":
            i += 1
            while ev[i][0] != ")":
                t, m, i = inline(ev, i + 1)
                add("li", solid(t), m)
            i += 1
        elif e[1] == "table":
            i += 1
            rows, marks = [], []
            while ev[i][0] != ")":
                i += 1
                row = []
                while ev[i][0] != ")":
                    t, m, i = inline(ev, i + 1)
                    row.append(solid(t))
                    marks += m
                i += 1
                rows.append(row)
            i += 1
            add("table", [], marks, rows=rows)
        elif e[1] == "p":
            t, m, i = inline(ev, i + 1)
            if len(m) == 1 and m[0].startswith("img="):
                f = re.fullmatch(r"img=images/slide(\d+)_image(\d+)\.([a-z0-9]*)", m[0])
                out.append(block("img", a=f.group(3), n=int(f.group(1))) if f else block("x", [tok(m[0])]))
            elif m == ["strong"]:
                out.append(block("label", flat(t)))
            else:
                add("p", solid(t), m)
        else:
            t, m, i = inline(ev, i + 1)
            add("x", [tok(e[1])], m)
    return out


def front(t):
    """title and slide count of the frontmatter: YAML block mapping of scalars"""
    ls, i, d = t.split("\n"), 0, {}
    while i < len(ls):
        m = re.fullmatch(r"([a-z]+): (.*)", ls[i])
        i += 1
        if not m or m.group(1) in d:
            return None
        k, v = m.groups()
        b = re.fullmatch(r"\|([1-9]?)([-+]?)", v)
        if b:
            body = []
            while i < len(ls) and (ls[i].startswith(" ") or not ls[i].strip()):
                body.append(ls[i])
                i += 1
            ind = int(b.group(1)) if b.group(1) else next((len(x) - len(x.lstrip(" ")) for x in body if x.strip()), 0)
            if any(x.strip() and not x.startswith(" " * ind) for x in body):
                return None
            d[k] = "\n".join(x[ind:] for x in body)
        elif v.startswith('"'):
            if not re.fullmatch(r'"(?:[^"\\]|\\["\\/nrt])*"', v):
                return None
            d[k] = re.sub(r"\\(.)", lambda q: {"n": "\n", "r": "\r", "t": "\t"}.get(q.group(1), q.group(1)), v[1:-1])
        elif v.startswith("'"):
            if not re.fullmatch(r"'(?:[^']|'')*'", v):
                return None
            d[k] = v[1:-1].replace("''", "'")
        elif re.fullmatch(r"[A-Za-z0-9][A-Za-z0-9 ._-]*", v):
            d[k] = v
        else:
            return None
    return d


def front_block(t):
    d = front(t)
    if d is None or not d.get("slides", "x").isdigit() or "title" not in d:
        return block("x", ["frontmatter " + tok(t)])
    return block("front", flat(d["title"]), n=int(d["slides"]))
