"""Mermaid diagrams as statements (module Mermaid): random ones, and their text."""

WORDS = ["Start", "Stop", "Review", "Ship it", "Order line", "Größe", "Überblick", "R&D", "A+B", "Don't", "日本", "Plan 2", "x_1", "Zoo", "Foo", "Émile", "50 %", "Go", "No", "Node", "End point", "Class A", "Pie", "$5", "a=b", "Q/A", "I, II", "…", "Ok?", "#1"]
IDS = ["A", "B", "C", "D", "node1", "n_2", "Foo", "Zoo", "o", "Customer", "ORDER", "Bo", "oB", "Ärger", "end1", "X9", "classA", "graph1"]
SHAPES = {"rect": ("[", "]"), "round": ("(", ")"), "stadium": ("([", "])"), "diamond": ("{", "}"), "circle": ("((", "))"), "hexagon": ("{{", "}}")}
ARROWS = {"arrow": "-->", "open": "---", "dotted": "-.->", "thick": "==>"}
HEADS = {"flow": ["flowchart LR", "graph TD", "flowchart TB", "graph RL", "flowchart BT", "graph LR;"], "sequence": ["sequenceDiagram"], "pie": ["pie", "pie title Pets", "pie showData"],
         "gantt": ["gantt"], "class": ["classDiagram"], "state": ["stateDiagram-v2", "stateDiagram"], "er": ["erDiagram"], "mindmap": ["mindmap"], "timeline": ["timeline"],
         "journey": ["journey"], "quadrant": ["quadrantChart"], "git": ["gitGraph", "gitGraph:", "gitGraph LR:"]}
OPS = ["<|--", "--|>", "-->", "<--", "--", "*--", "--*", "o--", "--o", "..>", "<..", "..|>", "..", "<|.."]
ENDS = ["||", "|o", "}o", "}|"]


def text(rng):
    return rng.choice(WORDS) + (" %d" % rng.randint(1, 99) if rng.random() < 0.5 else "")


def plain(rng):
    """a text that opens no structure of its own in any kind"""
    return text(rng)


def flow_node(rng, ids):
    i = rng.choice(ids)
    if rng.random() < 0.45:
        return {"id": i, "t": i, "sh": ""}
    return {"id": i, "t": rng.choice([text, text, lambda r: r.choice(["x --> y", "f(x)", "a [1]", "{b}", "a|b", "p -- q", "<b>", "&amp;", "m ==> n", "a; b", "%% no"])])(rng), "sh": rng.choice(list(SHAPES))}


def statement(rng, k, ids):
    r = rng.random()
    i = lambda: rng.choice(ids)
    if k == "flow":
        if r < 0.1:
            return {"k": "sub", "t": text(rng)}
        if r < 0.22:
            return {"k": "end"}
        n = rng.choice([1, 2, 2, 2, 3, 4])
        return {"k": "chain", "ns": [flow_node(rng, ids) for _ in range(n)], "ls": [{"st": rng.choice(list(ARROWS)), "l": text(rng) if rng.random() < 0.4 else ""} for _ in range(n - 1)]}
    if k == "sequence":
        if r < 0.25:
            return {"k": "part", "id": i(), "t": text(rng) if rng.random() < 0.6 else ""}
        return {"k": "msg", "a": i(), "b": i(), "t": rng.choice([text(rng), "a: b", "x -> y", "f(x)"]), "dash": rng.random() < 0.4}
    if k == "pie":
        return {"k": "slice", "t": text(rng), "v": rng.choice([0, 1, 2, 3, 7, 10, 33, 250, rng.randint(0, 1000)])}
    if k == "gantt":
        return {"k": "title", "t": text(rng)} if r < 0.1 else {"k": "section", "t": text(rng)} if r < 0.3 else {"k": "task", "t": text(rng)}
    if k == "class":
        if r < 0.35:
            op = rng.random() < 0.8
            return {"k": "class", "id": i(), "open": op, "as": [rng.choice(["+int ", "-String ", "#List~int~ "]) + rng.choice("xyz") for _ in range(rng.randint(0, 3))] if op else [],
                    "ms": [rng.choice(["+run()", "-get(int i) bool", "+size() int", "+f(a, b)$"]) for _ in range(rng.randint(0, 3))] if op else []}
        if r < 0.5:
            c = rng.random() < 0.5
            return {"k": "member", "id": i(), "t": rng.choice(["+go()", "-set(x) void"]) if c else rng.choice(["+int n", "String name"]), "call": c}
        return {"k": "rel", "a": i(), "b": i(), "op": rng.choice(OPS), "l": text(rng) if rng.random() < 0.3 else ""}
    if k == "er":
        if r < 0.4:
            return {"k": "class", "id": i(), "open": True, "ms": [], "as": [rng.choice(["int id PK", "string name", "float price", "date on_day", "string a \"x -- y\""]) for _ in range(rng.randint(0, 4))]}
        e = rng.choice(ENDS)
        return {"k": "rel", "a": i(), "b": i(), "op": e + rng.choice(["--", ".."]) + rng.choice(ENDS)[::-1].replace("}", "{"), "l": text(rng) if rng.random() < 0.6 else ""}
    if k == "state":
        x = lambda: "*" if rng.random() < 0.25 else i()
        return {"k": "go", "a": x(), "b": x(), "l": text(rng) if rng.random() < 0.4 else ""}
    if k == "mindmap":
        return {"k": "idea", "t": text(rng), "lvl": rng.choice([0, 1, 1, 2, 2])}
    if k == "timeline":
        return {"k": "title", "t": text(rng)} if r < 0.1 else {"k": "date", "t": text(rng), "item": text(rng) if rng.random() < 0.7 else ""} if r < 0.6 else {"k": "more", "t": text(rng), "colon": rng.random() < 0.5}
    if k == "journey":
        return {"k": "section", "t": text(rng)} if r < 0.3 else {"k": "step", "t": text(rng), "v": rng.randint(0, 7)}
    if k == "quadrant":
        return {"k": "quad", "n": rng.randint(1, 4), "t": text(rng)} if r < 0.3 else {"k": "point", "t": text(rng), "x": rng.randint(0, 100), "y": rng.randint(0, 100)}
    if r < 0.5:
        return {"k": "commit", "t": text(rng) if rng.random() < 0.6 else "", "tag": rng.random() < 0.2}
    return {"k": rng.choice(["branch", "branch", "checkout", "checkout", "merge"]), "b": rng.choice(["main", "dev", "feature/x", "fix-1", "release"])}


class Seen:
    """which statements may follow (Allowed of the specification)"""
    def __init__(self):
        self.open, self.ids, self.title, self.groups, self.ideas, self.branches = False, set(), False, 0, [], {"main"}

    def take(self, s):
        k = s["k"]
        if k == "sub":
            ok = not self.open
        elif k == "end":
            ok = self.open
        elif k == "part":
            ok = s["t"] == "" or s["id"] not in self.ids
        elif k == "title":
            ok = not self.title
        elif k == "more":
            ok = self.groups > 0
        elif k == "idea":
            ok = not self.ideas if s["lvl"] == 0 else bool(self.ideas) and (s["lvl"] == 1 or 1 in self.ideas)
        elif k in ("checkout", "merge"):
            ok = s["b"] in self.branches
        else:
            ok = True
        if not ok:
            return False
        self.open = k == "sub" or self.open and k != "end"
        self.title |= k == "title"
        self.groups += k == "date"
        if k == "part":
            self.ids.add(s["id"])
        if k == "msg":
            self.ids |= {s["a"], s["b"]}
        if k == "idea":
            self.ideas.append(s["lvl"])
        if k == "branch":
            self.branches.add(s["b"])
        return True


def diagram(rng, size, k=None):
    k = k or rng.choice(list(HEADS))
    ids = rng.sample(IDS, rng.choice([2, 3, 4, 6, 8]))
    seen, out = Seen(), []
    while len(out) < size:
        s = statement(rng, k, ids)
        if k == "mindmap" and not out:
            s["lvl"] = 0
        if seen.take(s):
            out.append(s)
    if seen.open:
        out.append({"k": "end"})
    return {"k": k, "st": out}


def brackets(rng, n):
    if n["sh"] == "":
        return n["id"]
    a, b = SHAPES[n["sh"]]
    t = n["t"]
    special = any(c in t for c in "[](){}|<>;-=%&") or rng.random() < 0.2
    return n["id"] + a + ('"%s"' % t if special else t) + b


def line(rng, k, s):
    o = s["k"]
    if o == "chain":
        out = brackets(rng, s["ns"][0])
        for l, n in zip(s["ls"], s["ns"][1:]):
            sp = rng.choice([" ", " ", ""])
            if l["l"] and l["st"] == "arrow" and rng.random() < 0.4:
                out += " -- %s --> %s" % (l["l"], brackets(rng, n))
            else:
                out += sp + ARROWS[l["st"]] + ("|%s|" % l["l"] if l["l"] else "") + sp + brackets(rng, n)
        return [out + (";" if rng.random() < 0.15 else "")]
    if o == "sub":
        return ["subgraph " + s["t"]]
    if o == "part":
        return ["participant " + s["id"] + (" as " + s["t"] if s["t"] else "")]
    if o == "msg":
        sp = rng.choice(["", " "])
        return [s["a"] + sp + ("-->>" if s.get("dash") else "->>") + sp + s["b"] + rng.choice([": ", ":", " : "]) + s["t"]]
    if o == "slice":
        return ['"%s"%s%d' % (s["t"], rng.choice([" : ", ": ", ":"]), s["v"])]
    if o in ("title", "section"):
        return [o + " " + s["t"]]
    if o == "task":
        return [s["t"] + rng.choice([" :a1, 2024-01-01, 30d", " : done, 3d", ":crit, active, after a1, 2w"])]
    if o == "step":
        return ["%s: %d: %s" % (s["t"], s["v"], rng.choice(["Me", "Me, Cat"]))]
    if o == "class":
        if k == "er":
            return [s["id"] + " {"] + ["    " + m for m in s["as"]] + ["}"]
        if not s.get("open", True):
            return ["class " + s["id"]]
        m = [("m", x) for x in s["ms"]]
        a = [("a", x) for x in s["as"]]
        rng.random() < 0.5 and m.reverse() is None and m.reverse()
        both = a + m if rng.random() < 0.6 else m + a
        return ["class " + s["id"] + rng.choice([" {", "{"])] + ["    " + x for _, x in both] + ["}"]
    if o == "member":
        return [s["id"] + " : " + s["t"]]
    if o == "rel":
        if k == "er":
            return [s["a"] + " " + s["op"] + " " + s["b"] + (" : " + rng.choice(["%s", '"%s"']) % s["l"] if s["l"] else "")]
        card = rng.random() < 0.2
        return [s["a"] + (' "1"' if card else "") + " " + s["op"] + " " + ('"0..n" ' if card else "") + s["b"] + (" : " + s["l"] if s["l"] else "")]
    if o == "go":
        n = lambda x: "[*]" if x == "*" else x
        return [n(s["a"]) + " --> " + n(s["b"]) + (rng.choice([" : ", ": "]) + s["l"] if s["l"] else "")]
    if o == "idea":
        return [" " * {0: rng.choice([0, 2, 4]), 1: rng.choice([6, 8]), 2: rng.choice([10, 12, 16])}[s["lvl"]] + rng.choice(["%s", "%s", "(%s)", "[%s]", "id((%s))", "- %s", "n1[%s]", "x{{%s}}"]) % s["t"]]
    if o == "date":
        return [s["t"] + " :" + (" " + s["item"] if s["item"] else "")]
    if o == "more":
        return [(": " if s["colon"] else "") + s["t"]]
    if o == "quad":
        return ["quadrant-%d %s" % (s["n"], s["t"])]
    if o == "point":
        return ["%s: [%.2f, %.2f]" % (s["t"], s["x"] / 100, s["y"] / 100)]
    if o == "commit":
        return ["commit" + (' id: "%s"' % s["t"] if s["t"] else "") + (' tag: "v1"' if s.get("tag") else "")]
    if o in ("branch", "checkout", "merge"):
        return [o + " " + s["b"]]
    return [o]


def render(rng, d):
    out = [rng.choice(HEADS[d["k"]])]
    for s in d["st"]:
        if rng.random() < 0.06:
            out.append(rng.choice(["", "    %% a remark"]))
        ls = line(rng, d["k"], s)
        out += ls if d["k"] == "mindmap" else [rng.choice(["    ", "    ", "  "]) + l for l in ls]
    return "\n".join(out)


def page(rng, ds, extras):
    out = ["# Page"]
    for d in ds:
        if extras and rng.random() < 0.5:
            out.append(rng.choice(["- one\n- two", "```rust\nlet x = 1;\n```", "Some text"]))
        out.append("```mermaid\n" + render(rng, d) + "\n```")
    if extras and rng.random() < 0.4:
        out.append("| a | b |\n|---|---|\n| 1 | 2 |")
    return "\n\n".join(out) + "\n"
