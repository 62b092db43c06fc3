"""Random HTML documents (as the specification's blocks) and their rendering as HTML text."""
from .vlib import tok

WORDS = ["alpha", "be", "Gamma", "d3", "naïve", "日本", "x", "Zeta", "10", "émoji😀", "two", "END", "a;b", "it's"]
PUNCT = ["<", ">", "&", "<b>", "</p>", "&amp;", "<!--", "-->", "\"", "'", "/", "=", "#", "{", "}", ";", "< y", "<3", "&x", "©", "€"]
COLOURS = {"FF0000": ["red", "#ff0000", "#F00", "rgb(255, 0, 0)"], "0000FF": ["blue", "#00f", "rgb(0,0,255)"], "008000": ["green", "#008000", "rgba(0,128,0,0.5)"],
           "1A2B3C": ["#1a2b3c", "#1A2B3CFF"]}
BLOCKTAG = ["p"] * 8 + ["div", "div", "article", "section", "main", "footer", "header", "aside", "address", "figcaption", "center"]
BOXTAG = ["div", "div", "div", "section", "article", "main", "header", "footer", "figure", "aside", "details", "body"]


PLAIN = ["", "", "", "", "", "", ""]
SIZES = {"15": ["20px", "15pt", "15", "14.6pt"], "12": ["16px", "12pt", "12", "12.2pt"], "24": ["24pt", "32px", "24"], "18": ["18pt", "24px"], "20": ["20pt", "26.7px", "20"], "1": ["1pt", "1"], "4000": ["4000pt"]}
FONTS = ["Arial", "Times New Roman", "Fira Code"]


def colour(rng, p=.12):
    """the look a style gives: colour, size, background, weight, slope, underline, family"""
    c = list(PLAIN)
    if rng.random() < p:
        for i in rng.sample(range(7), rng.choice([1, 1, 1, 2, 3])) if rng.random() < .5 else [0]:
            c[i] = rng.choice([sorted(COLOURS), sorted(SIZES), sorted(COLOURS), ["bold", "normal"], ["italic", "normal"], ["underline"], FONTS][i])
    return c


def style(c, rng):
    """declarations of a look"""
    d = []
    if c[0]:
        d.append(rng.choice(["color: %s", "color:%s", "COLOR : %s "]) % rng.choice(COLOURS[c[0]]))
    if c[1]:
        d.append(rng.choice(["font-size: %s", "font-size:%s", "Font-Size : %s"]) % rng.choice(SIZES[c[1]]))
    if c[2]:
        d.append("background-color:" + rng.choice(COLOURS[c[2]]))
    if c[3]:
        d.append("font-weight: " + rng.choice(["bold", "700", "Bold", "900"] if c[3] == "bold" else ["normal", "400"]))
    if c[4]:
        d.append("font-style:" + rng.choice(["italic", "oblique", "ITALIC"] if c[4] == "italic" else ["normal"]))
    if c[5]:
        d.append("text-decoration: " + rng.choice(["underline", "underline dotted"]))
    if c[6]:
        d.append("font-family:" + (rng.choice(["%s", "'%s'"]) % c[6]))
    d += rng.sample(["margin: 3px", "width:", "", "line-height:2", "border:1px solid red"], rng.choice([0, 0, 1, 2]))
    rng.shuffle(d)
    return rng.choice([";", "; "]).join(d) + rng.choice(["", ";"])


def text(rng, n=None):
    out = []
    for i in range(n or rng.choice([1, 1, 2, 3, 5])):
        k = rng.choice(["text"] * 6 + ["strong", "em", "both", "code", "link", "span", "punct", "break", "ent"])
        if k == "break" and (i == 0 or out[-1]["k"] == "break"):
            k = "text"
        w = rng.choice(WORDS)
        if k == "punct":
            k, w = "text", w + " " + rng.choice(PUNCT) + " " + rng.choice(WORDS)
        elif k != "text" and rng.random() < .3:
            w += rng.choice([" & ", " < ", " "]) + rng.choice(WORDS)
        out.append({"k": k, "x": w, "y": ""})
    while out[-1]["k"] == "break":
        out.pop()
    return out


def image(rng, k):
    if rng.random() < .25:
        return {"k": "pic", "x": "", "y": "pic.png"}
    alt, url = rng.choice(["", "A photo", "x<y"]), "missing%d.png" % k
    return {"k": "img", "x": "", "y": "[Image: %s]" % (alt or url), "url": url, "alt": alt}


def words(rng, k, p=.07, n=None):
    t = text(rng, n)
    if rng.random() < p:
        t.insert(rng.randint(0, len(t)), image(rng, k))
        if rng.random() < .2:
            t = [q for q in t if q["k"] in ("img", "pic")]
    return t


CODE = ["fn main() {}", "    indented", "a\n\n  b", "\tx", "if a < b && c > d {", "<b>&amp;</b>", "**x**  ", "x = \"1\" \\ y", "日本 😀", "</pre >", "\n  late", "a < b", "<!-- c -->"]


def code(rng):
    c = "\n".join(rng.choice(CODE) for _ in range(rng.randint(1, 3)))
    return {"k": "code", "c": c}


def table(rng, k, e, depth):
    w = rng.randint(1, 3)
    rows = []
    for i in range(rng.randint(0 if rng.random() < .2 else 1, 3)):
        n = w if rng.random() < .8 else rng.randint(1, w + 1)
        rows.append([blocks(rng, k, dict(e, **{"in": "cell"}), depth + 1, rng.choice([0, 1, 1, 1, 1, 2, 3])) if rng.random() < .4 else
                     ([{"k": "loose", "t": words(rng, k, .03, rng.choice([1, 1, 2]))}] if rng.random() < .9 else []) for _ in range(n)])
    return {"k": "table", "cap": [words(rng, k, .02, 1)] if rng.random() < .15 else [], "rows": rows}


def lst(rng, k, e, depth):
    items = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        body = [{"k": "loose", "t": words(rng, k)}] if rng.random() < .6 else blocks(rng, k, dict(e, li=True), depth + 1, rng.choice([1, 2, 3]))
        items.append({"body": body, "col": colour(rng)})
    return {"k": "list", "items": items, "col": colour(rng, .05)}


def block(rng, k, e, depth):
    kinds = ["p"] * 4 + ["loose", "loose", "h", "list", "list", "quote", "code", "table", "box", "skip", "bold"]
    if depth == 0:
        kinds += ["h1"] * 4 + ["rule", "list", "table", "quote", "box", "skip"]
    if depth > 3:
        kinds = ["p", "loose", "p", "loose", "h", "code", "skip"]
    what = rng.choice(kinds)
    if what == "list" and e["li"] or what == "table" and e["in"] == "cell" and depth > 2 or what == "bold" and e["bold"]:
        what = "p"
    if what == "h1" or what == "h":
        return {"k": "h", "n": 1 if what == "h1" or rng.random() < .08 else rng.randint(2, 6), "t": words(rng, k, .05) if rng.random() < .96 else [], "col": colour(rng)}
    if what == "p":
        return {"k": "p", "t": words(rng, k) if rng.random() < .95 else [], "col": colour(rng)}
    if what == "loose":
        return {"k": "loose", "t": words(rng, k)}
    if what == "quote":
        return {"k": "quote", "body": blocks(rng, k, dict(e, **{"in": "quote" if e["in"] == "slide" else e["in"]}), depth + 1, rng.choice([1, 1, 2, 3]))}
    if what == "box":
        return {"k": "box", "body": blocks(rng, k, e, depth + 1 if e["in"] != "slide" or e["li"] else depth + (rng.random() < .5), rng.choice([0, 1, 2, 3])), "col": colour(rng, .25)}
    if what == "bold":
        b = blocks(rng, k, dict(e, bold=True), depth + 1, rng.choice([1, 2]))
        return {"k": "bold", "body": [x if x["k"] not in ("loose", "skip") else {"k": "p", "t": text(rng), "col": list(PLAIN)} for x in b]}
    return {"code": lambda: code(rng), "table": lambda: table(rng, k, e, depth), "list": lambda: lst(rng, k, e, depth), "rule": lambda: {"k": "rule"}, "skip": lambda: {"k": "skip"}}[what]()


def blocks(rng, k, e, depth, n):
    out = []
    for i in range(n):
        b = block(rng, k + i, e, depth)
        if out and b["k"] == "loose" and out[-1]["k"] == "loose":
            b = {"k": "p", "t": b["t"], "col": list(PLAIN)}
        out.append(b)
    return out


def doc(rng, n):
    out = []
    for i in range(n):
        b = blocks(rng, 100 * i, {"in": "slide", "li": False, "bold": False}, 0, 1)[0]
        if out and b["k"] == "loose" and out[-1]["k"] == "loose":
            b = {"k": "p", "t": b["t"], "col": list(PLAIN)}
        out.append(b)
    return out


# ---------------------------------------------------------------- the specification's form
def pieces(t):
    out, last = [], None
    for q in t:
        if q["k"] in ("img", "pic"):
            out.append({"k": q["k"], "x": "", "y": tok(q["y"])})
            continue
        if last and q["k"] != "break" and last != "break":
            out.append({"k": "text", "x": " ", "y": ""})
        last = q["k"]
        out.append({"k": {"link": "text", "span": "text", "code": "text", "ent": "text"}.get(q["k"], q["k"]), "x": tok(q["x"]), "y": ""})
    return out


def norm_code(c):
    c = c.rstrip()
    while c and not c.split("\n")[0].strip():
        c = c.split("\n", 1)[1]
    return c


def export(b):
    b = dict(b)
    if "t" in b:
        b["t"] = pieces(b["t"])
    if "items" in b:
        b["items"] = [{"body": [export(x) for x in it["body"]], "col": it["col"]} for it in b["items"]]
    if "body" in b:
        b["body"] = [export(x) for x in b["body"]]
    if "rows" in b:
        b["cap"] = [pieces(t) for t in b["cap"]]
        b["rows"] = [[[export(x) for x in c] for c in r] for r in b["rows"]]
    if b["k"] == "code":
        b["c"] = tok(norm_code(b["c"]))
    return b


# ---------------------------------------------------------------- rendering
NAMED = {"©": "&copy;", "€": "&euro;", "\"": "&quot;", "'": "&apos;"}


def esc(s, rng):
    out = ""
    for i, ch in enumerate(s):
        nxt = s[i + 1:i + 2]
        r = rng.random()
        if ch == "<":
            out += "<" if r < .5 and nxt and (nxt in " 3<") else rng.choice(["&lt;", "&lt;", "&#60;", "&#x3C;", "&#X3c;"])
        elif ch == "&":
            out += "&" if r < .5 and nxt == " " else rng.choice(["&amp;", "&amp;", "&#38;"])
        elif ch == ">":
            out += rng.choice([">", "&gt;"])
        elif ch in NAMED and r < .5:
            out += NAMED[ch]
        elif ch.strip() and r < .03:
            out += "&#%d;" % ord(ch) if r < .015 else "&#x%x;" % ord(ch)
        else:
            out += ch
    return out


class R:
    def __init__(self, rng):
        self.rng = rng

    def attrs(self, col="", extra=""):
        rng, a = self.rng, []
        if rng.random() < .15:
            a.append(rng.choice(['class="a b"', "id=x1", "title='a > b'", 'data-x="<p>"', "hidden", 'title="it&apos;s"', "dir = ltr", 'class=""', 'title="/"']))
        if any(col):
            d = style(col, rng)
            a.append('style="%s"' % d if "'" in d or rng.random() < .7 else "style='%s'" % d)
        elif rng.random() < .05:
            a.append(rng.choice(['style=""', 'style="margin:1px"', 'style="color:#1é23é4"', 'style="color:nope"', 'style=";;:"', 'style="font-size:big"', 'style="font-size:0"', 'style="font-size:4001pt"']))
        if extra:
            a.append(extra)
        rng.shuffle(a)
        return "".join(" " + x for x in a)

    def tag(self, n, col="", extra=""):
        r = self.rng.random()
        n = n.upper() if r < .06 else n.capitalize() if r < .08 else n
        return "<" + n + self.attrs(col, extra) + (self.rng.choice(["", " ", "\n"]) if r > .9 else "") + ">"

    def end(self, n):
        r = self.rng.random()
        return "</" + (n.upper() if r < .06 else n) + (" " if r > .95 else "") + ">"

    def wrap(self, n, x, col="", extra=""):
        return self.tag(n, col, extra) + x + self.end(n)

    def words(self, t):
        rng, out, last = self.rng, "", None
        for i, q in enumerate(t):
            k, x = q["k"], q["x"]
            if k == "break":
                out += rng.choice(["<br>", "<br/>", "<BR />", "<br>\n"])
                last = k
                continue
            if last and last != "break":
                out += rng.choice([" ", " ", " ", "\n", "  ", " <!-- x --> "])
            last = k if k not in ("img", "pic") or last else last
            e = esc(x, rng)
            if k in ("text", "ent"):
                out += e if rng.random() < .93 else self.wrap(rng.choice(["u", "small", "sub", "mark", "time"]), e)
            elif k == "strong":
                out += self.wrap(rng.choice(["b", "strong"]), rng.choice([e, e, "<u>%s</u>" % e]))
            elif k == "em":
                out += self.wrap(rng.choice(["i", "em"]), e)
            elif k == "both":
                out += "<b><i>%s</i></b>" % e if rng.random() < .5 else "<em><strong>%s</strong></em>" % e
            elif k == "link":
                out += self.wrap("a", e, "", rng.choice(['href="http://e.com/?a=1&amp;b=2"', "href=x.html", "href='/a/b'", "name=q"]))
            elif k == "span":
                out += self.wrap("span", e, [rng.choice(sorted(COLOURS))] + PLAIN[1:])
            elif k == "code":
                out += self.wrap(rng.choice(["code", "kbd", "tt"]), e)
            elif k == "img":
                s = 'src="%s"' % q["url"]
                a = 'alt="%s"' % q["alt"].replace("<", "&lt;") if q["alt"] or rng.random() < .5 else ""
                out += "<img " + (s + " " + a if rng.random() < .5 else a + " " + s) + rng.choice([">", "/>", " />"])
            elif k == "pic":
                out += '<img src="pic.png" alt="p">'
        if rng.random() < .04:
            out += rng.choice(["<b></b>", "<i> </i>", "<span></span>", "<b><i></i></b>", "<script>x<y</script>", "<svg><path d=1/></svg>", "<svg/>", "<!---->"])
        return out

    def pre(self, c):
        rng = self.rng
        x = ""
        for ch in c:
            x += {"<": "&lt;", "&": "&amp;"}.get(ch, ch)
        if rng.random() < .4:
            x = "\n".join(rng.choice(["%s", "%s", "<span class=k>%s</span>", "<b>%s</b>"]) % ln for ln in x.split("\n"))
        if rng.random() < .5:
            x = "<code>%s</code>" % x if rng.random() < .7 else '<code class="language-x">%s</code>' % x
        return x

    def skip(self, loose):
        rng = self.rng
        inner = rng.choice(["no", "<p>no</p><p>no", "<ul><li>no<li>no</ul>", "<a href=x><img src=q.png alt=no></a>", "no<br>no<hr>no", "<h1>no</h1>", "<table><tr><td>no</table>", "<b>no", "<blockquote>no</blockquote>",
                            "<input><label>no</label>", "<nav>no</nav>", "<pre>no</pre>", "<script>'</nav>'</script>no", "<svg/>no", ""])
        k = rng.choice(["nav", "form"] if loose else ["nav", "form", "nav", "script", "style", "noscript", "svg", "canvas", "iframe", "title", "comment", "script"])
        if k == "comment":
            return rng.choice(["<!-- <h1>no</h1> -->", "<!DOCTYPE html>", "<?xml version='1.0'?>", "<!-- a -- b -> <p>no -->"])
        if k in ("script", "style"):
            return self.tag(k) + rng.choice(["", "var x = 'no';", "if (a<b) { x('</div>'); }", "/* <p>no</p> <!-- */", "document.write('<h1>no</h1>');", "for(i=0;i<n;i++){}", "a</scripty>b<b", ".x > p { color: red }"]) + self.end(k)
        if k == "svg":
            return rng.choice(["<svg/>", "<svg width=1 />", "<svg><path d='M0'/><text>no</text></svg>", "<svg><title>no</title></svg>"])
        if k in ("title", "canvas", "iframe", "noscript"):
            inner = "no" if k in ("title", "iframe") else inner.replace("<svg/>", "")
        return self.tag(k) + inner + self.end(k)

    def seq(self, bs, last=True):
        """last: the end of the container follows"""
        rng, out = self.rng, ""
        for i, b in enumerate(bs):
            nxt = bs[i + 1]["k"] if i + 1 < len(bs) else "" if last else "?"
            prev = bs[i - 1]["k"] if i else ""
            if not (b["k"] == "loose" or prev == "loose") or rng.random() < .3:
                out += rng.choice(["", "", "\n", "\n    ", " "])
            elif rng.random() < .3:
                out += "\n"
            out += self.block(b, nxt, prev)
        return out

    def block(self, b, nxt, prev):
        rng, k = self.rng, b["k"]
        if k == "h":
            return self.wrap("h%d" % b["n"], self.words(b["t"]), b["col"])
        if k == "p":
            n = rng.choice(BLOCKTAG)
            if n == "p" and nxt in ("p", "h", "list", "quote", "code", "table", "rule", "") and rng.random() < .3:
                # what follows must be an element that ends a paragraph
                return self.tag("p", b["col"]) + self.words(b["t"])
            return self.wrap(n, self.words(b["t"]), b["col"])
        if k == "loose":
            return self.words(b["t"])
        if k == "list":
            n, its = rng.choice(["ul", "ul", "ol"]), ""
            for it in b["items"]:
                its += rng.choice(["", "\n", "\n  "]) + self.tag("li", it["col"]) + self.seq(it["body"]) + (self.end("li") if rng.random() < .7 else "")
            return self.wrap(n, its + rng.choice(["", "\n"]), b["col"])
        if k == "quote":
            return self.wrap("blockquote", self.seq(b["body"]))
        if k == "code":
            return self.tag("pre") + rng.choice(["", "\n"]) + self.pre(b["c"]) + self.end("pre")
        if k == "table":
            x = "" if not b["cap"] else self.wrap("caption", self.words(b["cap"][0]))
            sect = rng.random() < .3
            for i, r in enumerate(b["rows"]):
                row = self.tag("tr") + rng.choice(["", "\n"])
                for c in r:
                    n = "th" if i == 0 and rng.random() < .6 else "td"
                    row += self.tag(n) + self.seq(c) + (self.end(n) if rng.random() < .8 else "") + rng.choice(["", "", "\n", " "])
                if rng.random() < .8:
                    row += self.end("tr")
                if sect:
                    n = "thead" if i == 0 else "tbody"
                    row = self.tag(n) + row + (self.end(n) if rng.random() < .7 else "")
                x += rng.choice(["", "\n  "]) + row
            if rng.random() < .1:
                x = "<colgroup><col><col></colgroup>" + x
            return self.wrap("table", x)
        if k == "rule":
            return rng.choice(["<hr>", "<hr/>", "<HR />", '<hr class="x">'])
        if k == "skip":
            return self.skip(nxt == "loose" or prev == "loose")
        if k == "box":
            return self.wrap(rng.choice(BOXTAG[:-1]), self.seq(b["body"]), b["col"])
        if k == "bold":
            n = rng.choice(["b", "strong"])
            return self.wrap(n, self.seq(b["body"]))
        raise ValueError(k)


def html(bs, rng):
    r = R(rng)
    s = r.seq(bs)
    x = rng.random()
    if x < .3:
        s = "<!DOCTYPE html>\n<html lang=en><head><meta charset=utf-8><title>no</title><link rel=x href=y>" + rng.choice(["", "<style>p > b { color: red }</style>", "<script src=x></script>"]) + \
            "</head>\n<body class=z>" + s + "</body></html>"
    elif x < .5:
        s = "<html><body>" + s + "</body></html>\n"
    elif x < .6:
        while s.endswith(">") and "</" in s and s[s.rindex("</"):].count(">") == 1 and "-->" != s[-3:]:
            s = s[:s.rindex("</")]
            if rng.random() < .5:
                break
    if rng.random() < .1:
        s = s.replace("\n", "\r\n") if "<pre" not in s.lower() else s
    return s


def from_model(bs):
    def conv(b):
        b = dict(b)
        if "t" in b:
            b["t"] = [dict(q, url=q["y"] + ".png", alt=q["y"], y="[Image: %s]" % q["y"]) if q["k"] == "img" else q for q in b["t"]]
        if "items" in b:
            b["items"] = [dict(it, body=[conv(x) for x in it["body"]]) for it in b["items"]]
        if "body" in b:
            b["body"] = [conv(x) for x in b["body"]]
        if "rows" in b:
            b["rows"] = [[[conv(x) for x in c] for c in r] for r in b["rows"]]
        return b
    return [conv(b) for b in bs]
