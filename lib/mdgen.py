"""Random Markdown documents (as the specification's blocks) and their rendering as Markdown text."""
import re
from .vlib import tok

WORDS = ["alpha", "be", "Gamma", "d3", "naïve", "日本", "x", "Zeta", "10", "émoji😀", "two", "END"]
PUNCT = ["#", "*", "_", "`", "[", "]", "<", ">", "|", "~", "!", "\\", "+", "-", "(", ")", "&", "{", "}", "=", "^", "$", "\"", "'", "."]


def esc(s):
    """Markdown source whose text is s"""
    return re.sub(r"([!-/:-@\[-`{-~])", r"\\\1", s)


def word(rng):
    return rng.choice(WORDS)


def text(rng, n=None, table=False, first=True):
    """inline pieces; raw text in 'raw', tokens in x when exported"""
    out = []
    for i in range(n or rng.choice([1, 1, 2, 3, 5])):
        k = rng.choice(["text"] * 6 + ["strong", "em", "both", "del", "code", "link", "html", "punct", "break"])
        if k == "break" and (table or i == 0 or out[-1]["k"] == "break"):
            k = "text"
        w = word(rng)
        if k == "punct":
            k, w = "text", w + rng.choice(PUNCT) + (rng.choice(PUNCT) if rng.random() < .3 else "") + rng.choice([word(rng), ""])
        elif k in ("strong", "em", "both", "del") and rng.random() < .3:
            w += " & " + word(rng) if rng.random() < .5 else "<" + word(rng)
        elif k == "code" and rng.random() < .4:
            w = rng.choice(["a*b*", "<b>", "x  y" if False else "x y", "**", "&amp;", "\\n"])
        out.append({"k": k, "x": w, "y": ""})
    return out


def image(rng, k):
    if rng.random() < .25:
        return {"k": "pic", "x": word(rng), "y": "pic.png"}
    url = "missing%d.png" % k
    t = rng.choice(["", "", "A title"])
    return {"k": "img", "x": word(rng), "y": "[Image: %s]" % (t or url), "url": url, "title": t}


def pieces(t):
    """inserts the blanks between pieces that rendering writes; exported form"""
    out = []
    for i, q in enumerate(t):
        if i and q["k"] != "break" and t[i - 1]["k"] != "break":
            out.append({"k": "text", "x": " ", "y": ""})
        k = {"link": "text", "html": "text"}.get(q["k"], q["k"])
        out.append({"k": k, "x": tok(q["x"]), "y": tok(q["y"])})
    return out


def export(b):
    b = dict(b)
    if "t" in b:
        b["t"] = pieces(b["t"])
    if "items" in b:
        b["items"] = [[export(x) for x in it] for it in b["items"]]
    if "body" in b:
        b["body"] = [export(x) for x in b["body"]]
    if "rows" in b:
        b["rows"] = [[pieces(c) for c in r] for r in b["rows"]]
    if b["k"] == "code":
        b["lang"], b["c"] = tok(b["lang"] or "text"), tok(b["c"].rstrip())
    return b


def src(t, rng, table=False):
    out = ""
    for i, q in enumerate(t):
        k, x = q["k"], q["x"]
        if k == "break":
            out += rng.choice(["\n", "  \n", "\\\n"])
            continue
        if i and t[i - 1]["k"] != "break":
            out += " "
        out += {"text": esc(x), "strong": "**%s**" % esc(x), "em": "*%s*" % esc(x), "both": "***%s***" % esc(x), "del": "~~%s~~" % esc(x), "code": "`%s`" % x,
                "link": "[%s](http://example.com/%d)" % (esc(x), i), "html": rng.choice(["<u>%s</u>", "<mark>%s</mark>", "<sub>%s</sub>", "%s<!-- a </ <mark> -->", "%s<br>"]) % esc(x),
                "img": "![%s](%s%s)" % (esc(x), q.get("url", q["y"]), ' "%s"' % q["title"] if q.get("title") else ""), "pic": "![%s](pic.png)" % esc(x)}[k]
    if out and rng.random() < .5 and not table:
        out = out.replace("&amp;", "&amp;")
    return out


def table(rng, k):
    w = rng.randint(1, 4)
    rows = []
    for i in range(rng.randint(1, 4)):
        n = w if i == 0 or rng.random() < .8 else rng.randint(1, w)
        rows.append([text(rng, rng.choice([1, 1, 2]), table=True) if rng.random() < .9 else [] for _ in range(n)])
    if all(not c for c in rows[0]):
        rows[0][0] = text(rng, 1, table=True)
    if rng.random() < .08:
        rows[0][0] = rows[0][0] + [image(rng, k)]
    return {"k": "table", "rows": rows}


CODE = ["fn main() {}", "    indented", "a\n\n  b", "\tx", "# not a heading", "- not a list", "> no", "~~~", "<b>&amp;</b>", "**x**  ", "| a | b |", "x = \"1\" \\ y", "日本 😀", "---", "\n  late"]


def code(rng):
    c = "\n".join(rng.choice(CODE) for _ in range(rng.randint(1, 3)))
    return {"k": "code", "lang": rng.choice(["", "rust", "text", "c++", "python numbers"]), "c": c}


def para(rng, k):
    t = text(rng)
    if rng.random() < .08:
        t.insert(rng.randint(0, len(t)), image(rng, k))
        t = [q for i, q in enumerate(t) if q["k"] != "break" or 0 < i < len(t) - 1]
    return {"k": "p", "t": tidy(t)}


def tidy(t):
    while t and t[-1]["k"] == "break":
        t = t[:-1]
    while t and t[0]["k"] == "break":
        t = t[1:]
    t = [q for i, q in enumerate(t) if q["k"] != "break" or t[i - 1]["k"] != "break"]
    return t or [{"k": "text", "x": "t", "y": ""}]


def lst(rng, k, depth, tables=True):
    items = []
    for i in range(rng.choice([1, 2, 2, 3])):
        body = [para(rng, k)]
        while rng.random() < (.45 if depth < 5 else 0):
            what = rng.choice(["list", "list", "list", "p", "code", "quote", "table", "h", "html"])
            if what == "table" and not tables:
                what = "p"
            if what == "list" and body[-1]["k"] == "list":
                what = "p"
            body.append(lst(rng, k, depth + 1, tables) if what == "list" else para(rng, k) if what == "p" else code(rng) if what == "code" else
                        quote(rng, k, depth + 1) if what == "quote" else table(rng, k) if what == "table" else {"k": "html"} if what == "html" else
                        {"k": "h", "n": rng.randint(1, 6), "t": heading(rng)})
        items.append(body)
    return {"k": "list", "ord": rng.random() < .4, "items": items}


def heading(rng):
    return tidy([q for q in text(rng, rng.choice([1, 2, 3])) if q["k"] != "break"])


def quote(rng, k, depth=0):
    body = []
    for i in range(rng.choice([1, 1, 2, 3])):
        what = rng.choice(["p", "p", "p", "quote", "list", "h", "code"]) if depth < 4 else "p"
        if what in ("quote", "list") and body and body[-1]["k"] == what:
            what = "p"
        body.append(para(rng, k) if what == "p" else quote(rng, k, depth + 1) if what == "quote" else lst(rng, k, depth + 1, tables=False) if what == "list" else
                    {"k": "h", "n": rng.randint(1, 6), "t": heading(rng)} if what == "h" else code(rng))
    return {"k": "quote", "body": body}


def block(rng, k):
    what = rng.choice(["h1"] * 4 + ["h", "p", "p", "list", "list", "list", "quote", "quote", "code", "table", "table", "rule", "html"])
    if what == "h1":
        t = heading(rng)
        if rng.random() < .06:
            t = t + [image(rng, k)]
        return {"k": "h", "n": 1, "t": t}
    return {"h": lambda: {"k": "h", "n": rng.randint(2, 6), "t": heading(rng)}, "p": lambda: para(rng, k), "list": lambda: lst(rng, k, 0), "quote": lambda: quote(rng, k),
            "code": lambda: code(rng), "table": lambda: table(rng, k), "rule": lambda: {"k": "rule"}, "html": lambda: {"k": "html"}}[what]()


def doc(rng, n):
    out = []
    for k in range(n):
        b = block(rng, k)
        # adjacent lists and quotes would be one
        while out and b["k"] in ("list", "quote") and out[-1]["k"] == b["k"]:
            b = block(rng, k)
        out.append(b)
    return out


# ---------------------------------------------------------------- rendering
def indent(s, pre):
    return "\n".join(pre + ln if ln.strip() or ln else ln for ln in s.split("\n"))


def render(bs, rng, inner=False, tight=False):
    """blocks of one container; kinds follow each other with a blank line between"""
    out, lastmark = [], None
    for i, b in enumerate(bs):
        k = b["k"]
        if k == "h":
            t = src(b["t"], rng)
            if b["n"] <= 2 and rng.random() < .25 and not inner:
                s = t + "\n" + ("=" if b["n"] == 1 else "-") * rng.randint(3, 8)
            else:
                s = "#" * b["n"] + " " + t + rng.choice(["", "", " ##", "  "])
        elif k == "p":
            s = src(b["t"], rng)
        elif k == "rule":
            s = rng.choice(["***", "___", "- - -", "---"])
        elif k == "html":
            s = rng.choice(["<!-- note -->", "<!-- # no heading\n- no list -->"])
        elif k == "code":
            c = b["c"]
            if not b["lang"] and not inner and (i == 0 or bs[i - 1]["k"] not in ("list", "code")) and rng.random() < .2 and c.strip("\n") == c and c[:1] not in (" ", "\t") and "\t" not in c:
                s = "\n".join("    " + ln if ln else "" for ln in c.split("\n"))
            else:
                f = rng.choice(["```", "~~~~", "````"])
                s = f + b["lang"] + "\n" + c + "\n" + f
        elif k == "table":
            w = len(b["rows"][0])
            lines = ["| " + " | ".join(src(c, rng, True) for c in r) + " |" for r in b["rows"]]
            lines.insert(1, "|" + "|".join(rng.choice(["---", ":--", "--:", ":-:", " - "]) for _ in range(w)) + "|")
            s = "\n".join(lines)
        elif k == "quote":
            s = "\n".join(("> " + ln if ln or True else ">") for ln in render(b["body"], rng, True).split("\n"))
        elif k == "list":
            simple = all(len(it) == 1 or (len(it) == 2 and it[1]["k"] == "list") for it in b["items"]) and rng.random() < .7
            start, items = 1 if tight else rng.choice([1, 1, 3, 0]), []   # only a 1 interrupts a paragraph
            mark = rng.choice("-*+") if not b["ord"] else rng.choice(".)")
            for j, it in enumerate(b["items"]):
                m = (mark if not b["ord"] else "%d%s" % (start + j, mark)) + " " * rng.choice([1, 1, 2, 3])
                body = render_tight(it, rng) if simple else render(it, rng, True)
                ls = body.split("\n")
                items.append(m + ls[0] + "".join("\n" + (" " * len(m) + x if x else "") for x in ls[1:]))
            s = ("\n" if simple else "\n\n").join(items)
        out.append(s)
    return "\n\n".join(out)


def render_tight(it, rng):
    s = src(it[0]["t"], rng)
    return s if len(it) == 1 else s + "\n" + render([it[1]], rng, True, True)


def markdown(bs, rng):
    s = render(bs, rng) + rng.choice(["", "\n", "\n\n"])
    if rng.random() < .15:
        s = s.replace("\n", "\r\n")
    if rng.random() < .05:
        s = "\n\n" + s
    return s


def from_model(bs):
    """the emitted documents of MarkdownMC, with raw texts"""
    def conv(b):
        b = dict(b)
        if "t" in b:
            b["t"] = [dict(q, url=q["x"] + ".png", title=q["y"]) if q["k"] == "img" else q for q in b["t"]]
            for q in b["t"]:
                q["x"] = q["x"].strip()
                if q["k"] == "img":
                    q["y"] = "[Image: %s]" % q["title"]
        if "items" in b:
            b["items"] = [[conv(x) for x in it] for it in b["items"]]
        if "body" in b:
            b["body"] = [conv(x) for x in b["body"]]
        if b["k"] == "code":
            b["lang"] = "" if b["lang"] == "text" else b["lang"]
        return b
    return [conv(b) for b in bs]
