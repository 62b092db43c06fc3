"""Text of every kind a user may hand over: made of the tokens that matter to its reader, then cut and shuffled."""
WORDS = ["a", "Alpha", "é", "😀", "日本", "", " ", "\t", "0", "-1", "1e400", "99999999999999999999999", "NaN", "\u00a0", "\ufeff", "\u2028", "x" * 300, "ß" * 40, "\u0301", "\u0000", "\r"]
MD = ["# ", "## ", "###### ", "- ", "* ", "1. ", "99999999999. ", "   - ", "> ", ">", "```", "```mermaid\n", "~~~", "|", "|---|", "|:-:|\n", "---\n", "***", "**", "*", "_", "`", "``", "![", "](", ")", "[", "]", "<b>", "</b>", "<mark>", "<sub>x</sub>", "<sup>", "<!--", "-->", "\n", "\n\n", "$$", "$", "[^1]", "[^1]: ", "- [ ] ", "- [x] ", "&amp;", "&#0;", "\\", "~~", "http://e.org/", "\t", "  \n", "<br>", "==", ":::", "^", "~"]
HTML = ["<h1>", "</h1>", "<h2>", "<p>", "</p>", "<ul>", "<ol>", "<li>", "</li>", "</ul>", "<table>", "<tr>", "<td>", "</td>", "<td colspan='0'>", "<td colspan=99999999999>", "<td rowspan=-1>", "</table>", "<pre>", "</pre>", "<code>", "</code>", "<blockquote>", "</blockquote>", "<hr>", "<br/>", "<b>", "</b>", "<i>", "<script>", "</script>", "<style>", "</style>", "<!--", "-->", "<!", "<!DOCTYPE html>", "<![CDATA[", "]]>", "<?x", "<", ">", "</", "/>", "&", "&lt;", "&#", "&#x110000;", "&#xD800;", "&#0;", "&nbsp;", "&é;", "<a href=", "'", '"', "<img src='x' width='é' height='-1'>", "<p style='color:", "<p style=\"color:#é12345;background:rgb(1,,300)\">", "<div align=", "\n", "<svg>", "<title>", "</title>", "<body>", "</html>", "<nav>", "</nav>", "<é>", "<h7>", "<h0>"]
XML = ["<a>", "</a>", "<a b='1'/>", "<b:c xmlns:b='u'>", "</b:c>", "<?xml version='1.0'?>", "<?xml version='1.0' encoding='UTF-16'?>", "<!DOCTYPE a [<!ENTITY e 'x'>]>", "&e;", "&amp;", "&#xFFFF;", "&#0;", "<![CDATA[", "]]>", "<!--", "-->", "--", "<", ">", "'", '"', "=", "<a a='1' a='2'>", "<:a/>", "<a:/>", "<1/>", "\n"]
OPC = ["<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">", "</Relationships>", '<Relationship Id="rId1" Type="t" Target="a"/>', '<Relationship Id="rId4294967295" Type="t" Target="a"/>', '<Relationship Id="rId18446744073709551615" Type="" Target=""/>', '<Relationship/>', "<Types>", "</Types>", '<Default Extension="xml" ContentType="c"/>', "<Default/>", "<Override/>", '<Override PartName="" ContentType=""/>', '<Override PartName="/é" ContentType="x"/>']
PML = ['<p:sld xmlns:p="p" xmlns:a="a" xmlns:r="r">', "</p:sld>", "<p:cSld>", "</p:cSld>", "<p:spTree>", "</p:spTree>", "<p:sp>", "</p:sp>", "<p:nvSpPr>", '<p:nvPr><p:ph type="title"/></p:nvPr>', "</p:nvSpPr>", "<p:txBody>", "</p:txBody>", "<a:p>", "</a:p>", "<a:r>", "</a:r>", "<a:t>", "</a:t>", '<a:rPr sz="-1" b="x"/>', '<a:pPr lvl="99999999999"/>', "<p:graphicFrame>", "</p:graphicFrame>", "<a:tbl>", "</a:tbl>", "<a:tr>", "</a:tr>", "<a:tc gridSpan='0'>", "</a:tc>", '<a:off x="-9223372036854775809" y=""/>', '<a:ext cx="99999999999" cy="é"/>', '<p:sldId id="99999999999" r:id="é"/>', '<p:presentation xmlns:p="p" xmlns:r="r">', "</p:presentation>", '<p:sldSz cx="-1" cy="x"/>', "<p:sldIdLst>", "</p:sldIdLst>", "<p:grpSp>", "</p:grpSp>"]
DC = ["<cp:coreProperties xmlns:cp='c' xmlns:dc='d' xmlns:dcterms='t'>", "</cp:coreProperties>", "<dc:title>", "</dc:title>", "<cp:revision>", "</cp:revision>", "<dcterms:created>", "</dcterms:created>", "2024-01-01T00:00:00Z", "2024-99-99"]
HEX = list("0123456789abcdefABCDEF") + ["#", "+", "-", "é", "日", "😀", " ", "g", "rgb("]
WEB = HTML + ["<article>", "</article>", "<main>", "<meta property='og:title' content='x'>", "<img src='http://[::1'>", "<a href='http://é'>", "<base href=':'>", "<li><li>", "<noscript>"]
DIAGRAMS = {
    "graph TD": ["A[Start]", "A", "B{x}", "C((y))", "D>z]", "-->", "---", "-.->", "==>", "|yes|", "--text-->", "subgraph one", "end", ";", "&", ":::c", "[[", "]]", "[(db)]", "A[é", "style A fill:#é", "classDef x fill:#f9f", "-- x", "%% note", "direction LR"],
    "sequenceDiagram": ["participant A", "participant B as Bé", "actor C", "A->>B: hi", "A-->>B:", "A-)B", "Note over A,B: n", "Note right of A", "loop x", "end", "alt", "else", "activate A", "A->>", "->>B: x", ":", "autonumber"],
    "pie": ["title x", "\"a\" : 1", "\"b\": -5", "\"c\" : NaN", "\"d\" : inf", "\"\" : 0", "\"é : 3", "showData", "\"e\" : 1e308", ":"],
    "gantt": ["title x", "dateFormat YYYY-MM-DD", "section é", "T1 :a1, 2024-01-01, 30d", "T2 :after a1, 20d", "T3 : 99999999999999999999d", "T4 :done, 2024-13-45, -1d", ":", "T5 :crit, active, é", "axisFormat %m"],
    "classDiagram": ["class A {", "}", "+int x", "-y() : é", "A <|-- B", "A *-- B", "A o-- B : has", "A \"1\" --> \"*\" B", "class B", "A : +f()", "<<interface>> A", "A .. B", "{", "note \"x\""],
    "stateDiagram-v2": ["[*] --> A", "A --> B : go", "B --> [*]", "state A {", "}", "state \"é\" as C", "note right of A", "end note", "-->", "A -->", "--", "state X <<choice>>", "[*]"],
    "erDiagram": ["A ||--o{ B : has", "A {", "string é", "int id PK", "}", "A }|..|{ B", "A ||--", ":", "é ||--|| ü : ß", "A", "||"],
    "mindmap": ["root((x))", "  A", "    B", "      ::icon(fa)", "\tC", "  [é]", "(((", "        deep", "))", "-"],
    "timeline": ["title x", "2002 : a : b", ": c", "section é", "2003", ":", "2004 : é"],
    "journey": ["title x", "section s", "T: 5: Me", "T: -1: é, b", "T: x", ":", "T: 99999999999: ", "T::"],
    "quadrantChart": ["title x", "x-axis a --> b", "y-axis é", "quadrant-1 x", "A: [0.3, 0.6]", "B: [-1e30, NaN]", "C: ]0[", "D: [", "[1,2]: E", "quadrant-5 y", "]["],
    "gitGraph": ["commit", "commit id: \"é\"", "branch d", "checkout d", "merge d", "merge", "checkout", "cherry-pick id: \"x\"", "commit tag: \"v\"", "commit id:", "branch", "commit id: \"", "commit type: X"],
}
KINDS = {"markdown": MD, "html": HTML, "xml": XML, "well-formed": XML, "relationships": OPC + XML, "types": OPC + XML, "properties": DC + XML, "presentation": PML + XML, "slide": PML, "slide-part": PML, "colour": HEX, "web": WEB}
MAGIC = ["\x89PNG", "\xff\xd8", "\xff\xd8\xff\xe0", "GIF89a", "GIF87a", "GIF8", "RIFF", "WEBP", "VP8 ", "VP8L", "VP8X", "BM", "II*\x00", "\x00\x00\x00\x01", "\x1a\n", "IHDR", "\xff\xc0\x00\x11", "\x00", "\xff", "é"]


def mix(rng, toks, n):
    return "".join(rng.choice(toks) if rng.random() < .75 else rng.choice(WORDS) for _ in range(n))


def shake(rng, t):
    for _ in range(rng.choice([0, 0, 1, 2])):
        if not t:
            break
        a, b = sorted((rng.randint(0, len(t)), rng.randint(0, len(t))))
        t = rng.choice([t[:a], t[a:], t[:a] + t[b:], t[:a] + t[a:b] * 2 + t[b:], t[:a] + rng.choice(WORDS) + t[a:]])
    return t


def diagram(rng):
    kind = rng.choice(sorted(DIAGRAMS))
    lines = [rng.choice([kind, kind, kind.upper(), kind.split(" ")[0]])]
    for _ in range(rng.choice([0, 1, 2, 4, 8, 20])):
        lines.append("  " * rng.choice([0, 1, 1, 2, 3, 9]) + " ".join(rng.choice(DIAGRAMS[kind]) if rng.random() < .85 else rng.choice(WORDS + DIAGRAMS[rng.choice(sorted(DIAGRAMS))]) for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))))
    return "```mermaid\n" + shake(rng, "\n".join(lines)) + "\n```\n"


def deep(rng, kind):
    """nesting or length far beyond what is sensible"""
    n = rng.choice([50, 400, 600, 5000, 100000])
    o = {"markdown": ["> ", "- ", "*", "[", "`", "|", "  - ", "# ", "<b>", "1. ", "\n"], "html": ["<div>", "<ul><li>", "<b>", "<table><tr><td>", "<blockquote>", "<", "&", "<p>"], "web": ["<div>", "<ul><li>", "<b>"],
         "xml": ["<a>", "<a b='c'>", "&amp;"], "well-formed": ["<a>"], "slide": ["<p:grpSp>", "<a:p>"], "colour": ["#", "f"]}.get(kind)
    if not o:
        return mix(rng, KINDS.get(kind, XML), 40)
    x = rng.choice(o)
    if kind == "web":
        n = min(n, 600)
    n = min(n, 400000 // len(x))
    t = x * n
    if kind == "web":
        t += "<p>" + "long enough to be content " * 9
    if kind in ("xml", "well-formed") and rng.random() < .5:
        t += "</a>" * n
    if kind == "slide":
        t = PML[0] + t + x.replace("<", "</") * n + "</p:sld>"
    return t + rng.choice(["", "x", "\n\nx"])


def text(rng, kind):
    if kind == "picture":
        return shake(rng, "".join(rng.choice(MAGIC) if rng.random() < .6 else chr(rng.randrange(256)) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 30]))))
    if kind == "colour":
        return "".join(rng.choice(HEX) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 8, 9])))
    if rng.random() < .04:
        return deep(rng, kind)
    if kind == "markdown" and rng.random() < .5:
        return rng.choice(["", "# t\n\n", "- a\n"]) + diagram(rng) + rng.choice(["", mix(rng, MD, 5)])
    return shake(rng, mix(rng, KINDS[kind], rng.choice([1, 3, 8, 20, 60])))
