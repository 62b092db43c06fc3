"""Shared machinery: builds the harness, runs TLC (exhaustive models and trace judges),
executes cases against the real library, filters known findings, writes evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib, random, select
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def log(*a):
    print("#", *a, flush=True)


# ---------------------------------------------------------------- harness build
def cargo_env():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=os.path.join(ROOT, ".target"))
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    return env


def build_harness(features=""):
    t = time.time()
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")]
    if features:
        cmd += ["--features", features]
    p = subprocess.run(cmd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-6000:])
        raise ToolError("harness does not build")
    log("harness built in %.1fs" % (time.time() - t))
    return os.path.join(ROOT, ".target", "debug", "harness")


# ---------------------------------------------------------------- running cases
def exec_cases(binary, cases, scratch, workers=None, timeout=30.0, _again=False):
    """Feed cases (dicts with 'id') to harness processes. A result is a dict with 'id';
    a crash or hang of the process becomes {'id':..., 'fatal': ...}."""
    workers = workers or NCPU
    results = {}
    lock = threading.Lock()
    queue = list(cases)
    queue.reverse()

    def worker(n):
        wdir = os.path.join(scratch, "w%d" % n)
        os.makedirs(wdir, exist_ok=True)
        proc = None
        tmpd = os.path.join(wdir, "tmp")
        os.makedirs(tmpd, exist_ok=True)

        def start():
            env = dict(os.environ)
            env["TMPDIR"] = tmpd
            env["RUST_BACKTRACE"] = "0"
            return subprocess.Popen([binary, wdir], cwd=wdir, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                    stderr=subprocess.DEVNULL)
        buf = b""
        while True:
            with lock:
                if not queue:
                    break
                case = queue.pop()
            if proc is None:
                proc = start()
                buf = b""
            res = None
            try:
                proc.stdin.write((json.dumps(case) + "\n").encode())
                proc.stdin.flush()
            except (BrokenPipeError, OSError):
                res = {"id": case["id"], "fatal": "abort"}
            deadline = time.time() + case.get("timeout", timeout)
            while res is None:
                nl = buf.find(b"\n")
                if nl >= 0:
                    line, buf = buf[:nl], buf[nl + 1:]
                    if line.startswith(b"@R "):
                        res = json.loads(line[3:])
                    continue
                left = deadline - time.time()
                if left <= 0:
                    res = {"id": case["id"], "fatal": "hang"}
                    break
                r, _, _ = select.select([proc.stdout], [], [], left)
                if r:
                    chunk = os.read(proc.stdout.fileno(), 1 << 20)
                    if not chunk:
                        res = {"id": case["id"], "fatal": "abort"}
                        break
                    buf += chunk
            if "fatal" in res:
                proc.kill()
                proc.wait()
                proc = None
            with lock:
                results[case["id"]] = res
        if proc is not None:
            proc.stdin.close()
            try:
                proc.wait(10)
            except subprocess.TimeoutExpired:
                proc.kill()

    ths = [threading.Thread(target=worker, args=(i,)) for i in range(min(workers, max(1, len(cases))))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    # a busy machine is no hang: what did not answer is given another, longer chance on its own
    lost = [c for c in cases if results.get(c["id"], {}).get("fatal")]
    if lost and not _again:
        for c in lost[:4]:
            results.update(exec_cases(binary, [dict(c, timeout=2 * c.get("timeout", timeout))], scratch, 1, timeout, True))
            if results[c["id"]].get("fatal"):
                break
    missing = [c["id"] for c in cases if c["id"] not in results]
    if missing:
        raise ToolError("no result for cases %s" % missing[:3])
    return results


# ---------------------------------------------------------------- TLC
STAT = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def brief(out, n=60):
    ls = [l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Linting of", '"@@', "/\\ "))]
    k = [i for i, l in enumerate(ls) if "rror" in l]
    if k:
        ls = ls[max(0, k[0] - 1):k[0] + 14] + ["..."] + ls[-12:]
    return "\n".join(x[:700] for x in ls[-n:])


PRINT_LOCK = threading.Lock()
SHOWN = []


def tlc(module, cfg, scratch, env=None, workers="auto", timeout=600, mem="3g", extra=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + mem, "-cp", TLA_CP,
           "-Dtlc2.tool.impl.Tool.probabilistic=false", "-Djava.io.tmpdir=" + meta,
           "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-deadlock", "-workers", str(workers), "-config", cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, encoding="utf-8", errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s/%s" % (module, cfg))
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    states = distinct = 0
    for m in STAT.finditer(out):
        states, distinct = int(m.group(1)), int(m.group(2))
    return p.returncode, out, states, distinct


def tlc_model(module, cfg, scratch, **kw):
    """Exhaustive model: must pass; returns (states, distinct, emitted JSON values)."""
    rc, out, st, di = tlc(module, cfg, scratch, **kw)
    if rc != 0 or "Model checking completed. No error" not in out:
        print(brief(out))
        raise ToolError("model %s/%s: TLC reports an error in the specification itself (exit %d)" % (module, cfg, rc))
    emitted = [json.loads(json.loads(l)[2:]) for l in out.splitlines() if l.startswith('"@@')]
    return st, di, emitted


def tlc_sample(module, cfg, scratch, num, depth, seed, jobs=NCPU // 2, **kw):
    """Random behaviours of the model, its invariants checked on the way; returns (steps, the emitted JSON values)."""
    def one(k):
        rc, out, _, _ = tlc(module, cfg, scratch, workers=1, extra=("-simulate", "num=%d" % (num // jobs), "-depth", str(depth), "-seed", str(seed * 1000 + k)), **kw)
        if rc != 0 or "Error:" in out:
            print(brief(out))
            raise ToolError("model %s/%s: TLC reports an error in the specification itself (exit %d)" % (module, cfg, rc))
        m = re.search(r"number of states generated: (\d+)", out)
        return int(m.group(1)) if m else 0, [json.loads(json.loads(l)[2:]) for l in out.splitlines() if l.startswith('"@@')]
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        res = list(ex.map(one, range(jobs)))
    return sum(n for n, _ in res), [e for _, es in res for e in es]


MM = re.compile(r'^<<"MISMATCH", "((?:[^"\\]|\\.)*)", (-?\d+), (.*)$')


def judge(module, cfg, lines, scratch, shards=None, timeout=800, keyfn=None, workers=1):
    """Write the trace lines (grouped by 'case') to shards and let TLC judge each.
    Returns (states, [(case, step, clauses list, raw)])"""
    groups, cur = [], None
    for ln in lines:
        if cur is None or ln["case"] != cur[0]["case"]:
            cur = []
            groups.append(cur)
        cur.append(ln)
    shards = shards or (NCPU if len(lines) > 400 else (2 if len(lines) > 100 else 1))
    shards = max(1, min(shards, len(groups)))
    sizes = [0] * shards
    buckets = [[] for _ in range(shards)]
    for g in groups:
        i = sizes.index(min(sizes))
        buckets[i] += g
        sizes[i] += sum(len(json.dumps(x)) for x in g)
    jobs = []
    for i, b in enumerate(buckets):
        path = os.path.join(scratch, "trace-%s-%d.ndjson" % (module, i))
        with open(path, "w") as f:
            for ln in b:
                f.write(json.dumps(ln, ensure_ascii=True) + "\n")
        jobs.append((path, len(b)))

    def run(job):
        path, n = job
        rc, out, st, di = tlc(module, cfg, scratch, env={"VTRACE": path}, workers=workers, timeout=timeout)
        if rc != 0 or "Model checking completed. No error" not in out:
            with PRINT_LOCK:
                if not SHOWN:
                    SHOWN.append(1)
                    print(brief(out))
            raise ToolError("judge %s failed on %s (exit %d)" % (module, path, rc))
        if '<<"TRACE-DONE", %d>>' % n not in out:
            print(brief(out, 20))
            raise ToolError("judge %s did not consume the whole trace" % module)
        mism = []
        # a PrintT record may be wrapped over several lines: join from MISMATCH to the next record
        for rec in re.split(r'\n(?=<<\s*"|\S)', out):
            if '"MISMATCH"' in rec:
                one = re.sub(r"\s*\n\s*", " ", rec)
                one = re.sub(r"^<<\s*", "<<", one)
                m = MM.match(one)
                if not m:
                    raise ToolError("cannot parse judge output: " + one[:300])
                mism.append((m.group(1), int(m.group(2)), sorted(set(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3).split("@EXP@")[0]))), m.group(3)))
        return st, mism

    total, mm = 0, []
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        for st, m in ex.map(run, jobs):
            total += st
            mm += m
    return total, mm


# ---------------------------------------------------------------- text tokens
def tok(s):
    """TLC-safe rendering of arbitrary text (ASCII, no quotes or backslashes); injective but for
    the characters no XML document can contain, which every generated part has to leave out."""
    out = []
    for ch in s:
        o = ord(ch)
        if (o < 32 and o not in (9, 10, 13)) or o in (0xFFFE, 0xFFFF):
            continue
        if 32 <= o < 127 and ch not in '"\\~':
            out.append(ch)
        else:
            out.append("~%x;" % o)
    return "".join(out)


def digest(b):
    return hashlib.sha256(b).hexdigest()[:16]


# ---------------------------------------------------------------- known findings
def load_known():
    """known_findings.txt: lines 'known: property=<id> case=<case id> clause=<clause> :: text'"""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) clause=(\S+) :: (.*)", ln)
            if m:
                out[(m.group(1), m.group(2), m.group(3))] = m.group(4)
    return out


def shorten(v, n=600):
    s = json.dumps(v)
    return v if len(s) <= n else s[:n] + "..."


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        base = os.path.join(ROOT, ".work")
        os.makedirs(base, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.states = self.transitions = 0
        self.validated = 0
        self.samples = []
        self.lines = 0
        self.judged = 0
        self.notes = {}
        self.assumptions = []
        self.violations = []   # (case, step, clause, detail)
        self.replay = {}

    @property
    def quick(self):
        return self.tier != "thorough"

    def model(self, module, cfg, **kw):
        t = time.time()
        st, di, em = tlc_model(module, cfg, self.scratch, **kw)
        self.states += di
        self.transitions += st
        log("model %s/%s: %d states generated, %d distinct, %d behaviours emitted, %.1fs" % (module, cfg, st, di, len(em), time.time() - t))
        self.notes["model %s" % cfg] = {"states_generated": st, "distinct_states": di, "emitted": len(em)}
        return em

    def sample(self, module, cfg, num, depth, **kw):
        t = time.time()
        st, em = tlc_sample(module, cfg, self.scratch, num, depth, self.seed, **kw)
        self.transitions += st
        log("model %s/%s: %d random steps, %d behaviours emitted, %.1fs" % (module, cfg, st, len(em), time.time() - t))
        self.notes["random behaviours %s" % cfg] = {"states_generated": st, "emitted": len(em)}
        return em

    def judge(self, module, cfg, lines, **kw):
        t = time.time()
        st, mm = judge(module, cfg, lines, self.scratch, **kw)
        ncase = len({l["case"] for l in lines})
        self.lines += len(lines)
        for q in (1, len(lines) // 3, 2 * len(lines) // 3, len(lines) - 1):
            if 0 <= q < len(lines):
                self.samples.append(shorten(lines[q]))
        self.validated += ncase
        self.judged += st
        log("judge %s: %d cases, %d trace lines, %d mismatching lines, %.1fs" % (module, ncase, len(lines), len(mm), time.time() - t))
        for case, step, clauses, raw in mm:
            for c in clauses:
                self.violations.append((case, step, c, raw))
        return mm

    def bad(self, case, step, clause, raw=""):
        self.violations.append((case, step, clause, raw))

    def finish(self, cases_by_id, prefix=None):
        """prefix: only clauses that start with this are this property's (others ignored)."""
        known = load_known()
        viol, seen_known = [], set()
        for case, step, clause, raw in self.violations:
            if (self.prop, case, clause) in known:
                seen_known.add((case, clause))
            else:
                viol.append((case, step, clause, raw))
        for (p, case, clause), txt in sorted(known.items()):
            if p == self.prop and (case, clause) in seen_known:
                print("KNOWN-FINDING: property=%s case=%s clause=%s %s" % (p, case, clause, txt))
            elif p == self.prop:
                log("note: listed finding %s/%s not observed in this run" % (case, clause))
        # stale-protection: the evidence file
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated, "samples": self.samples[:12],
                           "trace_lines_judged": self.lines, "trace_states": self.judged,
                           "details": self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len({(v[0]) for v in viol})}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if viol:
            rdir = os.path.join(ROOT, ".work", "replay")
            os.makedirs(rdir, exist_ok=True)
            shown = {}
            for case, step, clause, raw in viol:
                shown.setdefault(clause, []).append((case, step, raw))
            for clause, lst in sorted(shown.items()):
                case, step, raw = min(lst, key=lambda x: len(json.dumps(cases_by_id.get(x[0], {}))))
                path = os.path.join(rdir, "%s-%s.json" % (self.prop, re.sub(r"\W+", "_", clause)[:60]))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "clause": clause, "case": case, "step": step,
                               "mismatch": raw, "input": cases_by_id.get(case), "other_cases": len(lst) - 1}, f, indent=1)
                log("clause %s: %d mismatches, e.g. case %s step %s %s" % (clause, len(lst), case, step, raw[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d cases=%d lines=%d wall=%.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.validated, self.lines, time.time() - self.t0))
        return 0
