"""Shared machinery: running TLC on the specification, importing the code
under test from /repo, collecting verdicts, writing evidence."""
import os, sys, json, time, shutil, tempfile, subprocess, random, hashlib, re, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

for k, v in {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
             "MPLCONFIGDIR": "/opt/venv/mplconfig", "OMP_NUM_THREADS": "1",
             "OPENBLAS_NUM_THREADS": "1"}.items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"


def rng(*tag):
    h = hashlib.sha256(repr((SEED,) + tag).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def np_seed(*tag):
    h = hashlib.sha256(repr((SEED,) + tag).encode()).digest()
    return int.from_bytes(h[:4], "big")


# --------------------------------------------------------------------- import
def import_repo():
    """Make `import qutip_qtrl` resolve to REPO/src."""
    src = os.path.join(REPO, "src")
    if src not in sys.path or sys.path[0] != src:
        sys.path.insert(0, src)
    if not os.path.exists(os.path.join(src, "qutip_qtrl", "version.py")):
        import types
        m = types.ModuleType("qutip_qtrl.version")
        m.version = "0"; m.short_version = "0"; m.__version__ = "0"
        sys.modules["qutip_qtrl.version"] = m
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import qutip_qtrl
    f = os.path.realpath(qutip_qtrl.__file__)
    if not f.startswith(os.path.realpath(src) + os.sep):
        raise RuntimeError("qutip_qtrl imported from %s, not from %s" % (f, src))
    # everything is loaded before any test double is put in place
    import pkgutil, importlib
    for m in pkgutil.iter_modules(qutip_qtrl.__path__):
        try:
            importlib.import_module("qutip_qtrl." + m.name)
        except Exception:
            pass
    return qutip_qtrl


# ------------------------------------------------------------------------ TLC
class TLCError(RuntimeError):
    pass


class TLCResult:
    pass


_scratch_root = None


def scratch():
    global _scratch_root
    if _scratch_root is None:
        _scratch_root = tempfile.mkdtemp(prefix="verif-qtrl-")
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch_root, ignore_errors=True))
    return _scratch_root


def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_val(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_val(x) for x in sorted(v, key=repr)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla_val(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def run_tlc(module, constants=None, invariants=("TypeOK",), spec="Spec", emit=None,
            properties=(), constraint=None, workers=8, simulate=None, depth=None,
            timeout=600, defs="", expect_violation=False, deadlock=False, extra_files=None,
            heap="6g", postcondition=None):
    """Model-check MODULE with the given constants (python values are turned into
    TLA+ definitions of a generated wrapper module, so any TLA+ value is allowed).
    Returns the result object; res.emitted is the list of decoded JSON records
    printed by the module as PrintT("@@" \\o ToJson(rec))."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in (extra_files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    wrap = "MC_" + module
    constants = constants or {}
    with open(os.path.join(d, wrap + ".tla"), "w") as fh:
        fh.write("---- MODULE %s ----\nEXTENDS %s\n" % (wrap, module))
        for k, v in constants.items():
            txt = v.raw if isinstance(v, Raw) else tla_val(v)
            fh.write("mc_%s == %s\n" % (k, txt))
        fh.write(defs + "\n====\n")
    with open(os.path.join(d, wrap + ".cfg"), "w") as fh:
        fh.write("SPECIFICATION %s\n" % spec)
        if constants:
            fh.write("CONSTANTS\n")
            for k in constants:
                fh.write("  %s <- mc_%s\n" % (k, k))
        for i in invariants:
            fh.write("INVARIANT %s\n" % i)
        if emit:
            fh.write("INVARIANT %s\n" % emit)
        for p in properties:
            fh.write("PROPERTY %s\n" % p)
        if constraint:
            fh.write("CONSTRAINT %s\n" % constraint)
        if postcondition:
            fh.write("POSTCONDITION %s\n" % postcondition)
        fh.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
           "-fp", "1", "-seed", str(SEED)]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd += ["-config", wrap + ".cfg", wrap + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out on %s" % module)
    out = p.stdout
    r = TLCResult()
    r.module, r.rc, r.wall = module, p.returncode, time.time() - t0
    r.emitted, keep = [], []
    for line in out.splitlines():
        if line.startswith('"@@'):
            r.emitted.append(json.loads(json.loads(line)[2:]))
        else:
            keep.append(line)
    r.out = "\n".join(keep)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    r.transitions = int(m.group(1)) if m else 0
    r.states = int(m.group(2)) if m else 0
    if not m and simulate:
        m = re.search(r"number of states generated: (\d+)", r.out) or re.search(r"(\d+) states checked", r.out)
        r.transitions = r.states = int(m.group(1)) if m else 0
    r.violated = re.findall(r"(?:Invariant|property|Property) (\w+) is violated", r.out)
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0 and not expect_violation:
        raise TLCError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, r.out[-4000:]))
    return r


class Raw:
    def __init__(self, raw):
        self.raw = raw


# ------------------------------------------------------------------- verdicts
class Check:
    """Collects violations of one property and writes the evidence file."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.violations = {}      # key -> detail (first one)
        self.nviol = 0
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "exhaustive": False, "models": {}}
        self.assumptions = []
        self.known = load_known(pid)

    def tlc(self, r, label=None):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        self.cov["models"][label or r.module] = {
            "states": r.states, "transitions": r.transitions,
            "behaviours_emitted": len(r.emitted), "wall_s": round(r.wall, 2)}

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def viol(self, key, detail):
        self.nviol += 1
        if key not in self.violations:
            self.violations[key] = detail

    def finish(self):
        new, known = {}, {}
        for k, d in self.violations.items():
            m = [e for e in self.known if re.fullmatch(e["match"], k)]
            if m:
                known.setdefault(m[0]["id"], (m[0], []))[1].append(k)
            else:
                new[k] = d
        for kid, (e, ks) in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        self.cov["known_findings_seen"] = sorted(known)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not new and self.cov["traces_validated_against_impl"] == 0:
            raise RuntimeError("nothing was validated against the implementation")
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            path = os.path.join(VERIF, "evidence", self.pid + "-violations.json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": SEED, "tier": TIER,
                           "violations": [{"key": k, "detail": d} for k, d in list(new.items())[:40]]},
                          f, indent=1, default=str)
            for k, d in list(new.items())[:5]:
                print("  violated: %s: %s" % (k, str(d)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (
            self.pid, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("{"):
                continue
            e = json.loads(line)
            if e.get("property") == pid and e.get("status") == "open":
                res.append(e)
    return res


# ------------------------------------------------------------------- parallel
class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang()


def _guarded(job):
    """One job of pmap; code under test that never comes back is a failure."""
    fn, k, x = job
    import signal
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(300 if TIER == "quick" else 3600)
    try:
        return k, fn(x)
    except Hang:
        raise RuntimeError("the code under test did not come back: " + short_tb())
    finally:
        signal.alarm(0)


def pmap(fn, items, procs=8, chunk=None):
    """Run fn over items in forked workers; fn must return picklable data."""
    items = list(items)
    if len(items) <= 1 or procs <= 1:
        return [fn(x) for x in items]
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    res = [None] * len(items)
    with ctx.Pool(min(procs, len(items))) as pool:
        for k, r in pool.imap_unordered(_guarded, [(fn, k, x) for k, x in enumerate(items)], chunksize=1):
            res[k] = r
    return res


def short_tb():
    et, ev, tb = sys.exc_info()
    fr = traceback.extract_tb(tb)
    last = [f for f in fr if "qutip_qtrl" in f.filename]
    loc = "%s:%s" % (os.path.basename(last[-1].filename), last[-1].name) if last else "?"
    return "%s: %s (in %s)" % (et.__name__, str(ev)[:200], loc)
