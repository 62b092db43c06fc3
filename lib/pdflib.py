"""Reads a PDF: its cross-reference table, objects and page tree, and what the content streams draw."""
import re, zlib

WS = b"\0\t\n\f\r "
DELIM = b"()<>[]{}/%"


class Ref(tuple):
    pass


class Name(str):
    pass


class Op(str):
    pass


class Bad(Exception):
    pass


class Lex:
    def __init__(self, d, i=0):
        self.d, self.i = d, i

    def skip(self):
        d = self.d
        while self.i < len(d):
            if d[self.i] in WS:
                self.i += 1
            elif d[self.i] == 37:
                while self.i < len(d) and d[self.i] not in b"\r\n":
                    self.i += 1
            else:
                return

    def literal(self):
        """a literal string, ISO 32000-1 7.3.4.2"""
        out, depth, d = bytearray(), 1, self.d
        self.i += 1
        while True:
            if self.i >= len(d):
                raise Bad("string")
            c = d[self.i]
            self.i += 1
            if c == 92:
                if self.i >= len(d):
                    raise Bad("string")
                c = d[self.i]
                self.i += 1
                if c in b"nrtbf":
                    out += {110: b"\n", 114: b"\r", 116: b"\t", 98: b"\b", 102: b"\f"}[c]
                elif c in b"01234567":
                    v = c - 48
                    for _ in range(2):
                        if self.i < len(d) and d[self.i] in b"01234567":
                            v = v * 8 + d[self.i] - 48
                            self.i += 1
                        else:
                            break
                    out.append(v & 255)
                elif c == 13:
                    if self.i < len(d) and d[self.i] == 10:
                        self.i += 1
                elif c != 10:
                    out.append(c)
            elif c == 40:
                depth += 1
                out.append(c)
            elif c == 41:
                depth -= 1
                if depth == 0:
                    return bytes(out)
                out.append(c)
            elif c == 13:
                if self.i < len(d) and d[self.i] == 10:
                    self.i += 1
                out.append(10)
            else:
                out.append(c)

    def token(self):
        self.skip()
        d = self.d
        if self.i >= len(d):
            return None
        c = d[self.i]
        if c == 40:
            return self.literal()
        if d[self.i:self.i + 2] in (b"<<", b">>"):
            self.i += 2
            return Op(d[self.i - 2:self.i].decode())
        if c == 60:
            j = d.find(b">", self.i)
            if j < 0:
                raise Bad("hex")
            h = bytes(x for x in d[self.i + 1:j] if x not in WS)
            self.i = j + 1
            return bytes.fromhex((h + b"0" * (len(h) % 2)).decode())
        if c in b"[]{}":
            self.i += 1
            return Op(chr(c))
        j = self.i + 1
        while j < len(d) and d[j] not in WS and d[j] not in DELIM:
            j += 1
        w = d[self.i:j]
        self.i = j
        if c == 47:
            return Name(re.sub(rb"#([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), w[1:]).decode("latin-1"))
        if re.fullmatch(rb"[+-]?\d+", w):
            return int(w)
        if re.fullmatch(rb"[+-]?(\d+\.\d*|\.\d+)", w):
            return float(w)
        return Op(w.decode("latin-1"))

    def value(self, t=None):
        t = self.token() if t is None else t
        if t is None:
            raise Bad("end")
        if t == "<<" and isinstance(t, Op):
            o = {}
            while True:
                k = self.token()
                if isinstance(k, Op) and k == ">>":
                    return o
                if not isinstance(k, Name) or k in o:
                    raise Bad("dictionary")
                o[str(k)] = self.value()
        if t == "[" and isinstance(t, Op):
            o = []
            while True:
                k = self.token()
                if isinstance(k, Op) and k == "]":
                    return o
                o.append(self.value(k))
        if isinstance(t, Op) and t not in ("true", "false", "null"):
            raise Bad("value " + t[:20])
        if isinstance(t, int):
            i = self.i
            m = re.compile(rb"[\0\t\n\f\r ]+(\d+)[\0\t\n\f\r ]+R(?![A-Za-z0-9])").match(self.d, self.i)
            if m:
                self.i = m.end()
                return Ref((t, int(m.group(1))))
            self.i = i
        return t


class Pdf:
    def __init__(self, data):
        self.faults, self.obj, self.stream = [], {}, {}
        self.data = data
        f = lambda c, n: None if c else self.faults.append(n)
        f(data.startswith(b"%PDF-1."), "header")
        f(data.rstrip().endswith(b"%%EOF"), "end")
        self.root = None
        try:
            i = data.rindex(b"startxref")
            x = Lex(data, i + 9).value()
            m = re.compile(rb"xref[\r\n ]+0 (\d+)[ \r]*\n").match(data, x)
            if not m:
                raise Bad("xref")
            n, p = int(m.group(1)), m.end()
            offs = []
            for k in range(n):
                e = re.compile(rb"(\d{10}) (\d{5}) ([nf])( \r| \n|\r\n)").match(data, p)
                if not e:
                    raise Bad("xref-entry")
                p = e.end()
                if e.group(3) == b"n":
                    offs.append((k, int(e.group(1))))
            lx = Lex(data, p)
            if lx.token() != "trailer":
                raise Bad("trailer")
            tr = lx.value()
            f(tr.get("Size") == n, "size")
            self.trailer = tr
            for k, o in offs:
                lx = Lex(data, o)
                if lx.token() != k or lx.token() != 0 or lx.token() != "obj":
                    raise Bad("xref-offset")
                self.obj[k] = lx.value()
                t = lx.token()
                if t == "stream":
                    s = lx.i + (2 if data[lx.i:lx.i + 2] == b"\r\n" else 1)
                    ln = self.get(self.obj[k].get("Length")) if not isinstance(self.obj[k].get("Length"), Ref) else None
                    if ln is None:      # an indirect length may stand further on
                        r = self.obj[k]["Length"]
                        lo = dict(offs)[r[0]]
                        l2 = Lex(data, lo)
                        l2.token(), l2.token(), l2.token()
                        ln = l2.value()
                    self.stream[k] = data[s:s + ln]
                    l3 = Lex(data, s + ln)
                    if l3.token() != "endstream" or l3.token() != "endobj":
                        raise Bad("stream-length")
                elif t != "endobj":
                    raise Bad("endobj")
        except (Bad, ValueError, KeyError, TypeError, AttributeError) as e:
            self.faults.append(str(e) if isinstance(e, Bad) else "structure")
            return
        for o in list(self.obj.values()) + [self.trailer]:
            self.refs(o)
        self.pages = []
        cat = self.get(self.trailer.get("Root"))
        if not isinstance(cat, dict) or cat.get("Type") != "Catalog":
            self.faults.append("catalog")
            return
        self.tree(cat.get("Pages"), None, set(), {})

    def get(self, v):
        return self.obj.get(v[0]) if isinstance(v, Ref) else v

    def refs(self, o):
        if isinstance(o, Ref):
            if o[0] not in self.obj or o[1] != 0:
                self.faults.append("reference")
        elif isinstance(o, dict):
            for x in o.values():
                self.refs(x)
        elif isinstance(o, list):
            for x in o:
                self.refs(x)

    def tree(self, r, parent, seen, inherit):
        o = self.get(r)
        if not isinstance(r, Ref) or r in seen or not isinstance(o, dict):
            self.faults.append("page-tree")
            return 0
        seen.add(r)
        if o.get("Parent") != parent:
            self.faults.append("parent")
        inherit = dict(inherit, **{k: o[k] for k in ("Resources", "MediaBox") if k in o})
        if o.get("Type") == "Pages":
            n = sum(self.tree(k, r, seen, inherit) for k in o.get("Kids", []))
            if o.get("Count") != n:
                self.faults.append("count")
            return n
        if o.get("Type") != "Page":
            self.faults.append("page-type")
        self.pages.append(dict(inherit, **o))
        return 1

    def content(self, page):
        c = self.get(page.get("Contents"))
        refs = [page["Contents"]] if isinstance(page.get("Contents"), Ref) and not isinstance(c, list) else (c or [])
        out = b""
        for r in refs:
            s = self.stream.get(r[0])
            if s is None:
                self.faults.append("contents")
                continue
            fl = self.get(self.obj[r[0]].get("Filter"))
            for x in (fl if isinstance(fl, list) else [fl] if fl else []):
                s = zlib.decompress(s) if x == "FlateDecode" else s
            out += s + b"\n"
        return out


ARITY = {"rg": 3, "RG": 3, "g": 1, "G": 1, "Tf": 2, "Td": 2, "TD": 2, "Tj": 1, "TJ": 1, "re": 4, "f": 0, "BT": 0, "ET": 0, "m": 2, "l": 2, "w": 1, "S": 0, "q": 0, "Q": 0, "Tm": 6, "cm": 6, "T*": 0, "TL": 1, "Tc": 1, "Tw": 1,
         "k": 4, "K": 4, "s": 0, "n": 0, "W": 0, "h": 0, "c": 6, "d": 2, "J": 1, "j": 1, "B": 0, "b": 0, "Do": 1, "'": 1, "Tr": 1, "Ts": 1, "Tz": 1, "gs": 1, "F": 0, "f*": 0, "cs": 1, "scn": None, "CS": 1, "SCN": None, "BDC": 2, "BMC": 1, "EMC": 0}


def page(pdf, p):
    """[width, height, runs, strokes, rectangles]: what a page draws, in order"""
    fonts = pdf.get((pdf.get(p.get("Resources")) or {}).get("Font")) or {}
    box = pdf.get(p.get("MediaBox")) or [0, 0, 0, 0]
    runs, strokes, boxes = [], 0, 0
    st, stack, col, font, pos, text, path = [], [], (0, 0, 0), None, (0, 0), False, []
    lx = Lex(pdf.content(p))
    try:
        while True:
            t = lx.token()
            if t is None:
                break
            if not isinstance(t, Op) or t in ("[", "<<"):
                st.append(lx.value(t))
                continue
            if t not in ARITY or (ARITY[t] is not None and ARITY[t] != len(st)):
                pdf.faults.append("operator")
            elif t == "rg":
                col = tuple(st)
                if any(not 0 <= x <= 1 for x in st):
                    pdf.faults.append("colour")
            elif t == "q":
                stack.append((col, font))
            elif t == "Q":
                col, font = stack.pop()
            elif t == "Tf":
                font = (str(st[0]), st[1])
                if st[0] not in fonts:
                    pdf.faults.append("font")
            elif t == "BT":
                if text:
                    pdf.faults.append("text-object")
                text, pos = True, (0, 0)
            elif t == "ET":
                if not text:
                    pdf.faults.append("text-object")
                text = False
            elif t in ("Td", "TD"):
                pos = (pos[0] + st[0], pos[1] + st[1])
            elif t == "Tm":
                pos = (st[4], st[5])
            elif t == "Tj":
                if not text or font is None:
                    pdf.faults.append("text-object")
                    break
                fo = pdf.get(fonts.get(font[0])) or {}
                runs.append({"raw": st[0], "font": str(fo.get("BaseFont", "?")), "enc": str(pdf.get(fo.get("Encoding")) or ""), "size": font[1], "x": pos[0], "y": pos[1], "col": col})
            elif t == "m":
                path = [tuple(st)]
            elif t == "l":
                path.append(tuple(st))
            elif t == "S":
                strokes += 1
            elif t == "re":
                boxes += 1
            st = []
    except (Bad, IndexError, TypeError) as e:
        pdf.faults.append("content")
    return {"w": box[2] - box[0], "h": box[3] - box[1], "runs": runs, "strokes": strokes, "boxes": boxes}


def decode(r):
    """what a run shows, by its font's encoding"""
    if r["enc"] == "WinAnsiEncoding":
        return r["raw"].decode("cp1252", "replace")
    return r["raw"].decode("ascii", "replace")


def shown(s):
    """what the drawn pages can show of a text: line breaks and tabs as blanks, what the encoding lacks as ?"""
    out = []
    for c in s:
        if c in "\t\n\r":
            c = " "
        elif 0x80 <= ord(c) < 0xa0 or ord(c) < 0x20 or ord(c) == 0x7f:
            c = "?"
        else:
            try:
                c.encode("cp1252")
            except UnicodeEncodeError:
                c = "?"
        out.append(c)
    return "".join(out)
