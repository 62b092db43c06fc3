"""Decks: generate with the library, project the files, judge them with DeckTrace."""
import os
from concurrent.futures import ProcessPoolExecutor
from lib import vlib, deckgen, project as pj
tok = vlib.tok


def project_file(job):
    path, what = job
    with open(path, "rb") as f:
        return pj.project(f.read(), what)


def project_all(jobs):
    if not jobs:
        return []
    with ProcessPoolExecutor(max_workers=vlib.NCPU) as ex:
        return list(ex.map(project_file, jobs, chunksize=4))


def generate(chk, cases, features=""):
    binary = vlib.build_harness(features)
    return vlib.exec_cases(binary, cases, chk.scratch)


def outcome(r, entry):
    """(panic, err, path)"""
    if "fatal" in r:
        return True, False, None
    res = r["res"]
    if "panic" in res:
        return True, False, None
    e = res[entry]
    return "panic" in e, "err" in e, e.get("path")


def reset_line(c, want):
    return {"case": c["id"], "i": 0, "op": {"name": "reset", "deck": deckgen.abstract(c), "want": sorted(want)}, "obs": {}}


def view_lines(cases, results, want, op, what):
    """one line per case and entry with the projected view"""
    jobs, slots, lines = [], [], []
    for c in cases:
        lines.append(reset_line(c, want))
        for i, en in enumerate(c["entries"]):
            p, e, path = outcome(results[c["id"]], en)
            ln = {"case": c["id"], "i": i + 1, "op": {"name": op, "entry": en}, "obs": {"panic": p, "err": e}}
            lines.append(ln)
            if path:
                jobs.append((path, what))
                slots.append(ln)
    for ln, v in zip(slots, project_all(jobs)):
        ln["obs"].update(v)
    for c in cases:
        for en in c["entries"]:
            path = outcome(results[c["id"]], en)[2]
            if path and os.path.exists(path):
                os.remove(path)
    return lines


def batches(cases, n=200):
    for i in range(0, len(cases), n):
        yield cases[i:i + n]


def run_views(chk, cases, want, op, what, features="", post=None):
    for b in batches(cases, 400):
        res = generate(chk, b, features)
        lines = view_lines(b, res, want, op, what)
        if post:
            post(lines)
        chk.judge("DeckTrace", "DeckTrace.cfg", lines)
    return chk.finish({c["id"]: c for c in cases})
