from lib import vlib
from checks.common import run_ops


def run(chk):
    em = chk.model("UnitsMC", "UnitsMC.cfg")
    ops = []

    def add(unit, n, d, ref, cls, text):
        for via in ("dim", "flex", "shape", "image", "fn", "pos"):
            if via == "fn" and unit not in ("in", "cm", "pt"):
                continue
            if via == "pos" and unit not in ("in", "cm"):
                continue
            ops.append({"via": via, "unit": unit, "n": n, "d": d, "ref": ref, "class": cls, "v": text})
    rng = chk.rng
    for e in em:
        if abs(e["n"]) * {"in": 914400, "cm": 360000, "pt": 12700}.get(e["unit"], 1) // e["d"] >= 2 ** 31 - 10:
            add(e["unit"], 0, 1, e["ref"], "huge", repr(1e6 * e["n"])) if e["n"] > 0 else None
            continue
        add(e["unit"], e["n"], e["d"], e["ref"], "n", repr(e["n"] / e["d"]))
    for u in ("in", "cm", "pt", "ratio", "percent"):
        for t in ("inf", "1e300", "1e9"):
            add(u, 0, 1, 9144000, "huge", t)
        add(u, -1, 1, 9144000, "n", "-inf") if u not in ("in", "cm") else None
        add(u, 0, 1, 9144000, "nan", "nan")
    for n in range(400 if chk.quick else 20000):
        u = rng.choice(["in", "cm", "pt", "ratio", "percent", "emu"])
        d = rng.choice([1, 8, 10, 100, 1000]) if u != "emu" else 1
        if u == "percent":
            d = min(d, 10)
        m = {"in": 2000, "cm": 5000, "pt": 100000, "ratio": 2, "percent": 150, "emu": 2000000000}[u]
        k = rng.randint(-m // 4 if u != "emu" else 0, m) * d + (rng.randint(0, d - 1))
        if abs(k) > 2 ** 31 - 5:
            continue
        add(u, k, d, rng.choice([9144000, 12192000, 720000, 5, 2000000000]) if d <= 100 and u != "percent" else 9144000, "n", repr(k / d))
    for k in (0, 1, 18, 44, 4000):
        ops.append({"via": "fontsize", "unit": "pt", "n": k, "d": 1, "ref": 0, "class": "n", "v": str(k)})
    for k in (0, 1, 914400, 9144000, 123456789):
        ops.append({"via": "back", "unit": "emu", "n": k, "d": 1, "ref": 0, "class": "n", "v": str(k)})
    cases = [{"id": "u-%d" % i, "kind": "units", "ops": ops[i:i + 50]} for i in range(0, len(ops), 50)]

    def conv(o, c):
        return {"name": "convert", "via": o["via"], "unit": o["unit"], "n": o["n"], "d": o["d"], "ref": o["ref"], "class": o["class"]}

    def obs(ob, o, c):
        out = []
        for k, v in ob["vals"]:
            v = int(v)
            out.append({"k": k, "v": max(-2000000000, min(v, 2147483647)), "sat": v == 4294967295})
        return {"vals": out}
    chk.assumptions += ["results below 2^31 EMU are compared exactly (a dropped fraction of one EMU is allowed); beyond, only saturation"]
    return run_ops(chk, cases, lambda c: {}, conv, obs, "UnitsTrace", "UnitsTrace.cfg")
