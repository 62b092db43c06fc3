"""Adds to packages what other producers put there (comments, custom properties, unused media, layout
pictures, other ways of writing XML); and views packages the way compression must keep them."""
import os, re, hashlib
import xml.etree.ElementTree as ET
from . import project as pj, damage
from .vlib import tok

PRES, PRELS, TYPES = damage.PRES, damage.PRELS, "[Content_Types].xml"
REL = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
PKG = "http://schemas.openxmlformats.org/package/2006/relationships"


def override(parts, n, ct):
    t = parts[TYPES].decode()
    parts[TYPES] = t.replace("</Types>", '<Override PartName="/%s" ContentType="%s"/></Types>' % (n, ct)).encode()


def default(parts, ext, ct):
    t = parts[TYPES].decode()
    if not re.search(r'Extension=["\']%s["\']' % ext, t):
        at = re.search(r"<Types[^>]*>", t).end()
        parts[TYPES] = (t[:at] + '<Default Extension="%s" ContentType="%s"/>' % (ext, ct) + t[at:]).encode()


def relate(parts, src, ty, target, ext=False):
    d, f = os.path.split(src)
    n = os.path.join(d, "_rels", f + ".rels") if src else "_rels/.rels"
    if n not in parts:
        parts[n] = ('<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<Relationships xmlns="%s"></Relationships>' % PKG).encode()
    t = parts[n].decode()
    k = 1
    while re.search(r'Id=["\']rIdX%d["\']' % k, t):
        k += 1
    parts[n] = t.replace("</Relationships>", '<Relationship Id="rIdX%d" Type="%s%s" Target="%s"%s/></Relationships>' % (k, "" if "/" in ty else REL, ty, target, ' TargetMode="External"' if ext else "")).encode()
    return "rIdX%d" % k


def fresh(parts, ext):
    k = 1
    while any(n.startswith("ppt/media/image%d." % k) for n in parts):
        k += 1
    return "ppt/media/image%d.%s" % (k, ext)


CTS = {"png": "image/png", "jpg": "image/jpeg", "gif": "image/gif", "svg": "image/svg+xml", "mp4": "video/mp4", "wav": "audio/wav", "jpeg": "image/jpeg", "bin": "application/octet-stream"}


def media(parts, rng, ext=None):
    ext = ext or rng.choice(["png", "png", "jpg", "gif", "mp4", "wav"])
    n = fresh(parts, ext)
    parts[n] = bytes(rng.randrange(256) for _ in range(rng.randint(0, 300)))
    default(parts, ext, CTS[ext])
    return n


def slides(parts):
    return sorted(n for n in parts if re.fullmatch(r"ppt/slides/slide\d+\.xml", n))


def notes(parts):
    return sorted(n for n in parts if re.fullmatch(r"ppt/notesSlides/notesSlide\d+\.xml", n))


def shared_name(parts, rng):
    """two media files one name of which holds the other's"""
    a = "ppt/media/pic.png"
    if a not in parts:
        parts[a] = b"\x89PNG a"
        parts["ppt/media/bigpic.png"] = b"\x89PNG b"
        default(parts, "png", "image/png")
        relate(parts, rng.choice(slides(parts)), "image", "../media/bigpic.png")


def add(parts, what, rng):
    if what == "lone":
        for _ in range(rng.randint(1, 3)):
            media(parts, rng)
    elif what == "named":
        shared_name(parts, rng)
    elif what == "limg":
        n = rng.choice(sorted(x for x in parts if re.fullmatch(r"ppt/slide(Layouts|Masters)/\w+\.xml", x)))
        relate(parts, n, "image", rng.choice(["../", "/ppt/"]) + media(parts, rng, "png")[4:])
    elif what == "simg":      # used through its relationship only
        relate(parts, rng.choice(slides(parts)), rng.choice(["image", "video", "http://schemas.microsoft.com/office/2007/relationships/media"]), "../" + media(parts, rng)[4:])
    elif what == "nimg":
        if notes(parts):
            relate(parts, rng.choice(notes(parts)), "image", "../" + media(parts, rng, "png")[4:])
    elif what == "ext":       # an external relationship with the name of a part
        relate(parts, rng.choice(slides(parts)), "image", "../" + media(parts, rng, "png")[4:], ext=True)
    elif what == "comment":
        for k, n in enumerate(rng.sample(slides(parts), min(2, len(slides(parts)))), 1):
            c = "ppt/comments/comment%d.xml" % k
            parts[c] = b'<?xml version="1.0" encoding="UTF-8"?><p:cmLst xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main"><p:cm authorId="0" idx="1"><p:text>a  b</p:text></p:cm></p:cmLst>'
            override(parts, c, "application/vnd.openxmlformats-officedocument.presentationml.comments+xml")
            relate(parts, n, "comments", "../comments/comment%d.xml" % k)
        parts["ppt/commentAuthors.xml"] = b'<?xml version="1.0" encoding="UTF-8"?><p:cmAuthorLst xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main"/>'
        override(parts, "ppt/commentAuthors.xml", "application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml")
        relate(parts, PRES, "commentAuthors", rng.choice(["commentAuthors.xml", "/ppt/commentAuthors.xml"]))
    elif what == "custom":
        parts["docProps/custom.xml"] = b'<?xml version="1.0" encoding="UTF-8"?><Properties xmlns="http://schemas.openxmlformats.org/officeDocument/2006/custom-properties"/>'
        override(parts, "docProps/custom.xml", "application/vnd.openxmlformats-officedocument.custom-properties+xml")
        relate(parts, "", "custom-properties", "docProps/custom.xml")
        parts["docProps/thumbnail.jpeg"] = b"\xff\xd8jpeg"
        default(parts, "jpeg", "image/jpeg")
        relate(parts, "", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail", "docProps/thumbnail.jpeg")
    elif what == "xml":
        body = rng.choice([
            '<a><b> x </b> <b>y</b></a>', '<a>one <b>two</b> <c>three</c> four</a>', '<a xml:space="preserve"> <b/> </a>', '<a><b xml:space="preserve"> <c/> </b> <d/></a>',
            '<a>\n  <b>  </b>\n  <b>\t</b>\n  <b/>\n</a>', "<a k='say \"hi\"'>  it's \"so\"  <!-- a \" quote --> </a>", '<a k="x > y  z">p  "q"  r</a>', '<a><![CDATA[ <b> ]]> <c/></a>',
            '<a>\n <!-- " -->\n <b k=\'1\'/>\n</a>', '<a>\n\n<b>1</b>\n&#160;\n<c/></a>', '<a>&#32;<b/></a>', '<a>  <b/>text</a>', '<a>\u00a0<b/>\u2003</a>', '<?pi a > b?><a> <?pi " ?> <b/> </a>',
            '<a><b> </b><b>  \n </b><b>&#10;</b><b> x</b><b>x </b></a>'])
        enc = rng.choice(["utf-8", "utf-8", "utf-8", "utf-16", "utf-8-sig"])
        parts["customXml/item1.xml"] = ('<?xml version="1.0" encoding="%s"?>\n%s\n' % ("utf-16" if enc == "utf-16" else "utf-8", body)).encode(enc)
        if "customXml/item1.xml" not in parts[TYPES].decode():
            relate(parts, PRES, "customXml", "../customXml/item1.xml")
    elif what == "pretty":    # line breaks and blanks between the tags of slides and properties
        for n in sorted(parts):
            if n.endswith(".xml") and n != TYPES and not n.startswith("customXml"):
                t = parts[n].decode()
                parts[n] = re.sub(r"><(?!/(?:a:t|p:text)>)", lambda m: ">" + rng.choice(["", "\n", "\n    ", " ", "\r\n\t"]) + "<", t).encode()
    elif what == "texts":     # texts with blanks and quotation marks
        for n in slides(parts) + notes(parts):
            t = parts[n].decode()
            parts[n] = re.sub(r"<a:t>[^<]*</a:t>", lambda m: m.group(0) if rng.random() < .5 else "<a:t>" + rng.choice(
                ["  two  blanks  ", ' say "hi ', "it's", " ", "   ", "a > b", "a\nb", "\n", "\ttab\t", "&quot; &amp;  &lt;b&gt; ", "x &#10; y", "\u00a0nbsp\u00a0", "end ", " start", '"', "''  ''", "&#9;", ""]) + "</a:t>", t).encode()
    elif what == "quotes":    # attribute values in the other quotes, and with quotes and > inside
        for n in slides(parts):
            t = parts[n].decode()
            t = re.sub(r' (name|descr)="([^"\'&]*)"', lambda m: " %s='%s'" % (m.group(1), rng.choice([m.group(2), 'a "b"  c', "x > y", " <".replace("<", "&lt;") + " "])), t)
            parts[n] = t.encode()


def canon(e):
    """element tree without the blanks between elements"""
    kids = list(e)
    texts = [e.text or ""] + [k.tail or "" for k in kids]
    mixed = bool(kids) and (any(x.strip(" \t\r\n") for x in texts) or e.get("{http://www.w3.org/XML/1998/namespace}space") == "preserve")
    if kids and not mixed:
        texts = ["" for _ in texts]
    return (e.tag, tuple(sorted(e.attrib.items())), tuple(texts), tuple(canon(k) for k in kids))


def kind(n):
    if n.startswith("ppt/media/"):
        return "media"
    if n in ("docProps/core.xml", "docProps/app.xml", "docProps/custom.xml", "docProps/thumbnail.jpeg"):
        return "props"
    if re.fullmatch(r"ppt/notesSlides/[^/]*", n):
        return "notes"
    if re.fullmatch(r"ppt/comments/[^/]*|ppt/commentAuthors\.xml|ppt/authors\.xml", n):
        return "comments"
    return "rels" if n.endswith(".rels") else "other"


def view(data):
    v = damage.view(data)
    pkg = pj.Pkg(data)
    v["canon"] = [[tok(n), hashlib.sha256(repr(canon(e)).encode()).hexdigest()[:16]] for n, e in sorted(pkg.xml.items())]
    v["kinds"] = [{"n": tok(n), "k": kind(n)} for n in sorted(pkg.parts)]
    v["bytes"] = len(data)
    v["filesha"] = pj.sha(data)
    v["unpacked"] = sum(len(b) for b in pkg.parts.values())
    v["xmlbytes"] = sum(len(b) for n, b in pkg.parts.items() if n.endswith((".xml", ".rels")))
    v["imagebytes"] = sum(len(b) for n, b in pkg.parts.items() if n.startswith("ppt/media/") and n.endswith((".png", ".jpg", ".jpeg")))
    return v
