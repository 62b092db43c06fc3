"""Web pages: random ones and the model's, written as HTML with every byte of their text counted."""
from .vlib import tok
from .htmlgen import esc

WORDS = ["alpha", "beta", "gamma", "Delta", "naïve", "日本語", "😀", "x", "of", "a", "R&D", "1<2", "“quoted”", "it's", "C++", "end.", "ß", "e.g.", "50%", "#7"]
LIMIT = {"p": 200, "li": 180, "quote": 180, "code": 150}
AROUND = {"p": ("", ""), "li": ("• ", ""), "quote": ('"', '"'), "code": ("[Code] ", "")}
SPECIAL = ["article", "main", "role", ".content", ".post-content", ".article-content", ".entry-content", ".markdown-body", ".prose", "#content", "#main", "#article", ".article", "main article"]


def size(s):
    return len(s.encode())


def text(rng, n):
    """about n bytes of words; now and then exactly n of them"""
    out = rng.choice(WORDS)
    while size(out) < n:
        out += " " + rng.choice(WORDS)
    if n > 6 and rng.random() < .6:
        while size(out) > n:
            out = out[:-1]
        out = out.rstrip()
        out += "q" * (n - size(out))
    return out


def length(rng, edges):
    return rng.choice(edges) + rng.choice([-1, 0, 0, 1]) if rng.random() < .25 else rng.choice([3, 12, 12, 25, 40])


def block(rng, depth):
    k = rng.choice(["h", "h", "h", "p", "p", "p", "p", "li", "li", "li", "quote", "code", "table", "img", "skip", "box"] if depth < 4 else ["h", "p", "li", "p"])
    if k in ("box", "skip"):
        return {"k": k, "blocks": blocks(rng, depth + 1, rng.choice([0, 1, 2, 3]))}
    if k == "table":
        return {"k": k, "r": rng.choice([0, 1, 2, 3, 3, 29, 30, 31]), "c": rng.choice([1, 2, 3])}
    if k == "img":
        return {"k": k, "t": rng.choice(["", "A picture", "logo", "Größe <1>"]), "src": rng.choice(["link", "link", "link", "data"])}
    if k == "code":
        t = "\n".join(rng.choice(["", "  "]) + text(rng, rng.choice([4, 12, 30])) for _ in range(rng.choice([1, 1, 2, 3]))) if rng.random() < .7 else text(rng, length(rng, [151, 1000, 1000, 300]))
        return {"k": k, "t": t.strip()}
    t = "" if rng.random() < .06 else text(rng, length(rng, {"h": [300, 300, 200], "p": [10, 10, 200, 201, 600], "li": [500, 180, 181], "quote": [180, 181, 700]}[k]))
    return {"k": k, "t": t}


def blocks(rng, depth, n):
    return [block(rng, depth) for _ in range(n)]


class W:
    def __init__(self, rng):
        self.rng, self.out, self.n, self.h1 = rng, [], 0, []

    def raw(self, s):
        self.out.append(s)

    def txt(self, s, plain=False):
        self.n += size(s)
        self.out.append(s if plain else esc(s, self.rng).replace("<", "&lt;"))

    def gap(self):
        if self.rng.random() < .4:
            self.txt(self.rng.choice(["\n", " ", "\n    ", "\n\n"]), True)

    def attrs(self):
        return self.rng.choice(["", "", "", ' class="wide box"', " id=x7", ' data-role="main"', " hidden", ' style="color: red"'])

    def comment(self):
        if self.rng.random() < .03:
            self.raw(self.rng.choice(["<!-- note -->", "<!-- <p>no text, this is a comment</p> -->", "<!---->"]))

    def words(self, t, simple=False):
        rng, ws = self.rng, t.split(" ")
        opened = []
        if rng.random() < .2 and not simple:
            self.txt(rng.choice([" ", "\n  "]), True)
        for i, w in enumerate(ws):
            if i:
                r = rng.random()
                if simple or r < .8:
                    self.txt(" ", True)
                elif r < .87:
                    self.txt(rng.choice(["\n", "  ", "\n\t ", "\t"]), True)
                elif r < .92:
                    self.n += 2
                    self.raw(rng.choice(["&nbsp;", "&#160;", "\u00a0"]))
                else:
                    self.raw(rng.choice(["<br>", "<br/>", "<BR>"]))
            if rng.random() < .08 and len(opened) < 3:
                e = rng.choice(["b", "em", "span", "a", "i", "u", "code", "mark", "small", "kbd"])
                if e not in opened:
                    opened.append(e)
                    self.raw("<%s%s>" % (e, ' href="http://e.org/?a=1&amp;b=2"' if e == "a" else ""))
            if rng.random() < .03 and len(w) > 1:
                self.txt(w[:1])
                self.raw(rng.choice(["<!-- x -->", "<b></b>", "<wbr>"]))
                self.txt(w[1:])
            else:
                self.txt(w)
            while opened and rng.random() < .4:
                self.raw("</%s>" % opened.pop())
        while opened:
            self.raw("</%s>" % opened.pop())
        if rng.random() < .2 and not simple:
            self.txt(rng.choice([" ", "\n"]), True)

    def el(self, name, inner, attrs=None):
        self.raw("<%s%s>" % (name, self.attrs() if attrs is None else attrs))
        inner()
        self.raw("</%s>" % name)

    def parts(self, t):
        """the text in one piece, or in blocks of its own"""
        rng, ws = self.rng, t.split(" ")
        if len(ws) < 3 or rng.random() < .7:
            return self.words(t)
        c = rng.randrange(1, len(ws))
        a, b = " ".join(ws[:c]), " ".join(ws[c:])
        r = rng.random()
        if r < .3:
            self.words(a)
            self.el("ul", lambda: self.el("li", lambda: self.words(b)))
        elif r < .7:
            self.el("p", lambda: self.words(a))
            self.gap()
            self.el(rng.choice(["p", "div", "blockquote"]), lambda: self.words(b))
        else:
            self.words(a)
            self.el("div", lambda: self.words(b))

    def skip(self, bs):
        rng = self.rng
        k = rng.choice(["script", "style", "noscript", "iframe", "textarea", "select", "svg", "button"]) if not bs else rng.choice(["form", "nav", "footer", "advertisement", "ad-container", "Social-Share", "comment-section", "button"])
        if k in ("script", "style", "noscript", "iframe", "textarea"):
            return self.el(k, lambda: self.txt(rng.choice(["", "var a = 1;", "p { color: red }"]), True), "")
        if k == "select":
            return self.el(k, lambda: self.el("option", lambda: self.txt("first choice", True), ""), "")
        if k == "svg":
            return self.el(k, lambda: self.el("text", lambda: self.txt("drawn text", True), ""), "")
        if k in ("form", "nav", "footer", "button"):
            if k == "button" and bs:
                k = "nav"
            return self.el(k, lambda: self.seq(bs))
        self.el(rng.choice(["div", "section"]), lambda: self.seq(bs), ' class="x %s-1"' % k)

    def table(self, b):
        rng = self.rng
        def row(c, t):
            self.raw("<tr>")
            for i in range(c):
                self.el(rng.choice(["td", "td", "th"]), lambda: self.words(rng.choice(["x", "cell text", "ü"]), True))
            self.raw("</tr>")
            self.gap()
        self.raw("<table%s>" % self.attrs())
        self.gap()
        body = rng.random() < .3
        if body:
            self.raw("<tbody>")
        for i in range(b["r"]):
            if rng.random() < .05:
                row(0, 0)
            row(b["c"] if i == 0 else rng.choice([b["c"], 1, 4]), i)
        if b["r"] == 0 and rng.random() < .5:
            row(0, 0)
        if body:
            self.raw("</tbody>")
        self.raw("</table>")

    def one(self, b):
        rng, k = self.rng, b["k"]
        if k == "h":
            n = rng.choice([1, 2, 2, 3, 4, 5, 6])
            if n == 1:
                self.h1.append(b["t"])
            self.el("h%d" % n, lambda: b["t"] and self.words(b["t"], n == 1))
        elif k == "p":
            self.el("p", lambda: b["t"] and self.words(b["t"]))
        elif k == "quote":
            self.el("blockquote", lambda: b["t"] and self.parts(b["t"]))
        elif k == "code":
            r = rng.random()
            if r < .3:
                self.el("pre", lambda: self.el("code", lambda: self.txt(b["t"]), ""), "")
            else:
                self.el("pre" if r < .7 or "\n" in b["t"] else "code", lambda: self.txt(b["t"] + rng.choice(["", "\n"])))
        elif k == "table":
            self.table(b)
        elif k == "img":
            src = "data:image/png;base64,AAAA" if b["src"] == "data" else rng.choice(["a.png", "http://e.org/i.jpg", "/x/y.svg"])
            alt = ' alt="%s"' % esc(b["t"], rng).replace('"', "&quot;").replace("<", "&lt;") if b["t"] or rng.random() < .5 else ""
            self.raw("<img%s>" % "".join(rng.sample([' src="%s"' % src, alt, " width=20"], 3)) if b["src"] == "data" or rng.random() < .97 else "<img src='%s'%s/>" % (src, alt))
        elif k == "skip":
            self.skip(b["blocks"])
        elif k == "box":
            n = rng.choice([1, 1, 1, 2, 5]) if rng.random() < .97 else rng.choice([254, 300, 450])
            es = [rng.choice(["div", "div", "section", "header", "figure", "center"]) for _ in range(n)]
            for e in es:
                self.raw("<%s%s>" % (e, self.attrs()))
            self.seq(b["blocks"])
            for e in reversed(es):
                self.raw("</%s>" % e)

    def seq(self, bs):
        rng, lst = self.rng, ""
        for b in bs:
            if lst and (b["k"] != "li" or rng.random() < .2):
                self.raw("</%s>" % lst)
                lst = ""
            if b["k"] == "li":
                if not lst:
                    self.gap()
                    lst = rng.choice(["ul", "ol"])
                    self.raw("<%s>" % lst)
                self.gap()
                self.el("li", lambda: b["t"] and self.parts(b["t"]))
            else:
                self.gap()
                if b["k"] == "special":
                    b["write"]()
                else:
                    self.one(b)
            self.comment()
        if lst:
            self.raw("</%s>" % lst)
        self.gap()


def fill(w, start, bs, rng):
    """sometimes one more paragraph, so that the text is just long enough or just not"""
    if rng.random() < .5:
        more = rng.choice([100, 101, 130, 400]) - (w.n - start)
        if more >= 10:
            b = {"k": "p", "t": "f" * more}
            bs.append(b)
            w.raw("<p>")
            w.txt(b["t"], True)
            w.raw("</p>")


def page(rng, bs, at=None):
    """the HTML of the page and the page as the model sees it; at: the blocks of the marked element"""
    w, big, sp = W(rng), [], None
    if at is not None:
        sp = {"blocks": at, "big": False}
        kind = rng.choice(SPECIAL)
        def write():
            if kind == "main article":
                w.raw("<main>")
            e = "article" if kind in ("main article", "article") else "main" if kind == "main" else rng.choice(["div", "section"])
            a = {".": ' class="%s"' % rng.choice([kind[1:], "x " + kind[1:] + " y"]), "#": ' id="%s"' % kind[1:]}.get(kind[0], " role=main" if kind == "role" else "")
            w.raw("<%s%s>" % (e, a))
            n = w.n
            w.seq(at)
            fill(w, n, at, rng)
            sp["big"] = w.n - n > 100
            w.raw("</%s>" % e)
            if kind == "main article":
                w.raw("</main>")
        bs.insert(rng.randrange(len(bs) + 1), {"k": "special", "blocks": at, "write": write})
    w.seq(bs)
    fill(w, 0, bs, rng)
    meta = lambda: rng.choice([[], [], [""], [text(rng, rng.choice([3, 12, 30]))], [text(rng, 20)]])
    p = {"title": rng.choice([meta(), [text(rng, 12)]]), "og": meta(), "desc": meta(), "ogdesc": meta(), "h1": w.h1[:1],
         "blocks": bs, "special": [sp] if sp else [], "big": w.n > 100, "url": rng.choice(["https://e.org", "http://e.org/a?b=1&c=<2>", "https://日本.jp/ä", ""])}
    head = [("<title>%s</title>", p["title"])]
    for a, v in (("property=%sog:title%s", p["og"]), ("name=%sdescription%s", p["desc"]), ("property=%sog:description%s", p["ogdesc"])):
        q = rng.choice(['"', "'"])
        head.append(("<meta " + a % (q, q) + ' content="%s">', v))
    rng.shuffle(head)
    pad = rng.choice(["", " ", "\n "])
    h = "".join(f % (pad + esc(v[0], rng).replace('"', "&quot;").replace("<", "&lt;") + pad) for f, v in head if v)
    doc = rng.choice(["<!DOCTYPE html>", ""]) + "<html>" + rng.choice(["", "\n"]) + "<head>" + rng.choice(["", '<meta charset="utf-8">', "\n"]) + h + "</head>" + rng.choice(["", "\n"]) + "<body%s>" % rng.choice(["", ' class="home page"']) + "".join(w.out) + rng.choice(["</body></html>", "</body>", ""])
    return doc, p


def export(v):
    """the page in the specification's words"""
    if isinstance(v, list):
        return [export(x) for x in v]
    if not isinstance(v, dict):
        return tok(v) if isinstance(v, str) else v
    if v.get("k") in ("box", "special", "skip"):
        return {"k": "skip" if v["k"] == "skip" else "box", "blocks": export(v["blocks"])}
    o = {x: (y if x in ("k", "src") else export(y)) for x, y in v.items()}
    if v.get("k") in ("h", "p", "li", "quote", "code"):
        o["len"] = size(v["t"])
    if v.get("k") == "table":
        o["t"], o["len"] = "", 0
    return o


def longs(bs):
    for b in bs:
        if "blocks" in b:
            yield from longs(b["blocks"])
        elif b["k"] in LIMIT and size(b["t"]) > LIMIT[b["k"]]:
            yield b["k"], b["t"]


def whole(bullet, cuts):
    """a bullet that is a cut text, as the whole of it"""
    for k, t in cuts:
        a, z = AROUND[k]
        if bullet.startswith(a) and bullet.endswith("..." + z) and len(bullet) >= len(a + z) + 3:
            part = bullet[len(a):len(bullet) - len(z) - 3]
            if t.startswith(part) and LIMIT[k] // 2 <= size(part) <= LIMIT[k]:
                return tok(a + t) + "~cut;" + tok(z)
    return tok(bullet)


def from_model(bs, rng):
    """the model's blocks with texts of the same lengths"""
    out = []
    for b in bs:
        if "blocks" in b:
            out.append({"k": b["k"], "blocks": from_model(b["blocks"], rng)})
        elif b["k"] in ("table", "img"):
            out.append({x: b[x] for x in (("k", "r", "c") if b["k"] == "table" else ("k", "t", "src"))})
        else:
            t = b["t"] + " " if b["len"] > 10 else ""
            n = b["len"] + (60 if b["k"] == "p" and b["len"] > 10 else 0)
            out.append({"k": b["k"], "t": (t + text(rng, max(1, n - size(t))) if b["len"] > 1 else "s")})
    return out
