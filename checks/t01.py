from lib import vlib
from checks.common import run_ops

BIG = {"max": 1 << 62, "half": 1 << 61}


def run(chk):
    em = chk.model("TableMergeMC", "TableMergeMC.cfg" if chk.quick else "TableMergeMC_thorough.cfg")
    bypre, cases = {}, []
    for e in em:
        bypre.setdefault((e["rows"], e["cols"], tuple(map(tuple, e["pre"]))), []).append(e["try"])
    n = 0
    for (rows, cols, pre), tries in sorted(bypre.items()):
        for k in range(0, len(tries), 60):
            n += 1
            ops = [dict(r=a[0], c=a[1], rs=a[2], cs=a[3], probe=False) for a in pre]
            ops += [dict(r=a[0], c=a[1], rs=a[2], cs=a[3], probe=True, via_region=(i % 3 == 0)) for i, a in enumerate(tries[k:k + 60])]
            cases.append({"id": "mc-%d" % n, "kind": "merge", "rows": rows, "cols": cols, "ops": ops})
    rng = chk.rng
    for n in range(60 if chk.quick else 1500):
        rows, cols = rng.randint(0, 9), rng.randint(0, 9)
        ops = []
        for _ in range(rng.randint(1, 14)):
            z = rng.random()
            if z < 0.06:
                v = ["max", "half"]
                ops.append(dict(r=rng.choice(v + [1]), c=rng.choice(v + [1]), rs=rng.choice(v), cs=rng.choice(v + [2]), huge=True))
            else:
                ops.append(dict(r=rng.randint(0, rows), c=rng.randint(0, cols), rs=rng.choice([0, 1, 1, 2, 2, 3, rows]),
                                cs=rng.choice([0, 1, 1, 2, 2, 3, cols]), via_region=rng.random() < .3))
        cases.append({"id": "rnd-%d" % n, "kind": "merge", "rows": rows, "cols": cols, "ops": ops})

    # crowded grids: many accepted regions, requests aimed at one cell of any earlier region
    for n in range(40 if chk.quick else 1200):
        rows, cols = rng.randint(4, 10), rng.randint(4, 10)
        ops, acc, used = [], [], set()
        for _ in range(rng.randint(12, 40)):
            rs, cs = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 1, 2, 2, 3])
            if acc and rng.random() < .5:
                a = rng.choice(acc)
                r0, c0 = rng.choice(sorted(a))
                r, c = max(0, r0 - rng.randrange(rs)), max(0, c0 - rng.randrange(cs))
            else:
                r, c = rng.randrange(rows), rng.randrange(cols)
            cells = {(i, j) for i in range(r, r + rs) for j in range(c, c + cs)}
            if not (cells & used) and r + rs <= rows and c + cs <= cols:
                if rng.random() < .2 and len(acc) > 6:
                    continue
                acc.append(cells)
                used |= cells
            ops.append(dict(r=r, c=c, rs=rs, cs=cs, via_region=rng.random() < .3))
        cases.append({"id": "crowd-%d" % n, "kind": "merge", "rows": rows, "cols": cols, "ops": ops})

    def conv(o, c):
        h = bool(o.get("huge"))
        return dict(name="merge", huge=h, r=0 if h else o["r"], c=0 if h else o["c"], rs=0 if h else o["rs"], cs=0 if h else o["cs"])

    def obs(ob, o, c):
        for row in ob["grid"]:
            for cell in row:
                cell["x"] = vlib.tok(cell["x"])
        return ob
    chk.assumptions += ["grids up to 9x9, spans up to the grid size, plus requests near usize::MAX"]
    return run_ops(chk, cases, lambda c: {"rows": c["rows"], "cols": c["cols"]}, conv, obs, "TableMergeTrace", "TableMergeTrace.cfg")
