from lib import vlib
from lib.vlib import tok
from checks.common import run_ops, group_probes

NAMES = ["[Content_Types].xml", "_rels/.rels", "ppt/slides/slide1.xml", "ppt/slides/slide10.xml", "ppt/media/image1.png", "a", "A", "a b.xml",
         "é.xml", "日本/x.bin", "ppt/x&y<z>.xml", "deep/a/b/c/d/e/f.xml", ".hidden", "ppt/slides", "noext", "100%.xml", "a//b.xml", "/a", "/ppt/slides/slide1.xml", "ppt\\slides\\slide1.xml", "a ", " a", "a/../a", "./a", "ppt/slides/slide1.xml.bak", "e\u0301.xml"]


def run(chk):
    em = chk.model("PackageMapMC", "PackageMapMC.cfg" if chk.quick else "PackageMapMC_thorough.cfg")
    cases = group_probes(em, lambda e: {"kind": "package"}, per=30)
    rng = chk.rng

    def data():
        z = rng.random()
        if z < .1:
            return ""
        if z < .8:
            return bytes(rng.choice([0, 60, 62, 97, 255, 10, 13, rng.randrange(256)]) for _ in range(rng.randint(1, 10))).hex()
        return {"gen": rng.choice([100, 4096, 65535, 65536, 70001, 200000]), "seed": rng.randint(1, 9), "flat": rng.random() < .3}
    for n in range(80 if chk.quick else 2000):
        ops = []
        names = rng.sample(NAMES, rng.randint(2, 7))
        small = set()
        for _ in range(rng.randint(3, 20)):
            z, x = rng.random(), rng.choice(names)
            if z < .4:
                d = data()
                ops.append({"name": "add", "part": x, "data": d})
                (small.add if isinstance(d, str) else small.discard)(x)
            elif z < .5:
                ops.append({"name": "remove", "part": x})
            elif z < .6 and x in small:
                ops.append({"name": "append", "part": x, "data": "%02x" % rng.randrange(256)})
                small.discard(x)   # at most one append keeps the abstraction a plain hex string
            elif z < .75:
                ops.append({"name": rng.choice(["get", "has", "string"]), "part": x})
            elif z < .87:
                ops.append({"name": "mem"})
            else:
                ops.append({"name": "file", "stale": rng.random() < .5})
        ops.append({"name": "file", "stale": True})
        cases.append({"id": "rnd-%d" % n, "kind": "package", "ops": ops})
    if not chk.quick or True:
        # many parts
        ops = [{"name": "add", "part": "p/%d.xml" % i, "data": "%06x" % i} for i in range(150)] + [{"name": "mem"}, {"name": "file"}]
        cases.append({"id": "many", "kind": "package", "ops": ops})

    def conv(o, c):
        d = o.get("data", "")
        istext = True
        return dict(name=o["name"], part=tok(o.get("part", "")), data=d if isinstance(d, str) else "?", text=istext)

    def obs(ob, o, c):
        return {"ret": tok(ob["ret"]), "view": [[tok(a), b] for a, b in ob["view"]["parts"]], "count": ob["view"]["count"], "of": ob["of"]}
    binary = vlib.build_harness()
    res = vlib.exec_cases(binary, cases, chk.scratch)
    from checks.common import op_trace
    lines = op_trace(cases, res, lambda c: {}, conv, obs)
    # bytes given as a generator are named by the harness before they reach the container
    for ln in lines:
        if ln["op"]["name"] == "add" and ln["op"]["data"] == "?":
            ln["op"]["data"] = ln["obs"].get("of", "?")
    # text of a part is compared only where the bytes are valid UTF-8
    cur = {}
    for ln in lines:
        if ln["op"]["name"] == "reset":
            cur = {}
        elif not ln["op"].get("probe"):
            pass
        if ln["op"]["name"] == "string":
            want = {a: b for a, b in ln["obs"].get("view", [])}.get(ln["op"]["part"], "")
            try:
                bytes.fromhex(want).decode("utf-8")
            except (ValueError, UnicodeDecodeError):
                ln["op"]["text"] = False
    chk.judge("PackageMapTrace", "PackageMapTrace.cfg", lines)
    chk.assumptions += ["part names without a trailing slash (directory entries) and below 64 KiB; part sizes up to 200 kB"]
    return chk.finish({c["id"]: c for c in cases})
