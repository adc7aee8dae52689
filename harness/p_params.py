"""P19: parameter files (spec/LoadParams.tla)."""
import os
import numpy as np
from common import *

LITERAL = {"int7": "7", "int-3": "-3", "one": "1", "zero": "0", "dec": "2.5", "exp": "1e-3", "inf": "inf",
           "yes": "yes", "off": "off", "true": "true", "No": "No", "pi": "np.pi/2", "cplx": "1+2j", "word": "abc_d",
           "empty": "", "list": "[1, 2.5]", "tup": "(1, 2)", "mat": "[[0, 1], [1, 0]]", "broken": "[1, 2", "interp": "%(nope)s"}
NUM = {"int7": 7, "int-3": -3, "one": 1, "zero": 0, "dec": 2.5, "exp": 1e-3, "inf": float("inf"), "pi": np.pi / 2, "cplx": 1 + 2j}
BOOL = {"yes": True, "off": False, "true": True, "No": False, "one": True, "zero": False}
SEQ = {"list": [1, 2.5], "tup": [1, 2], "mat": [[0, 1], [1, 0]]}

SECTION = {"config": "optimconfig", "termconds": "termconds", "dynamics": "dynamics", "optim": "optimizer", "pulsegen": "pulsegen",
           "obj": "my section", "elsewhere": "somewhere"}
TYPES = ["float", "npfloat", "int", "npint", "bool", "complex", "str", "none", "list", "array", "qobj", "readonly"]
REAL = {"config": {"alg": "str", "dyn_type": "str", "optim_method": "str"},
        "termconds": {"fid_err_targ": "float", "max_wall_time": "float", "max_iterations": "float"},
        "dynamics": {"def_amps_fname": "str", "initial_ctrl_scaling": "float", "memory_optimization": "int", "cache_prop_grad": "none",
                     "dump_to_file": "bool", "dyn_gen_phase": "complex", "num_ctrls": "readonly"},
        "optim": {"max_metric_corr": "int", "approx_grad": "bool", "amp_lbound": "none", "amp_ubound": "none", "method": "str"},
        "pulsegen": {"scaling": "float", "offset": "float", "periodic": "bool", "num_tslots": "int", "lbound": "none", "tau": "array"},
        "obj": {}}


def value(t, k):
    """The value a spelling k becomes under type t."""
    from qutip import Qobj
    if t == "str":
        return LITERAL[k]
    if t == "bool":
        return BOOL[k]
    if t in ("float", "int", "complex"):
        return {"float": float, "int": int, "complex": complex}[t](NUM[k])
    if t == "list":
        return SEQ[k]
    if t == "array":
        return np.array(SEQ[k], dtype=float)
    return Qobj(np.array(SEQ[k]))


def is_value(x, t, k):
    from qutip import Qobj
    v = value(t, k)
    if t == "array":
        return isinstance(x, np.ndarray) and x.dtype == float and x.shape == v.shape and bool((x == v).all())
    if t == "qobj":
        return isinstance(x, Qobj) and x == v
    if t == "list":
        return type(x) is list and x == v
    if t == "bool":
        return isinstance(x, (bool, np.bool_)) and bool(x) == v
    if t == "int":
        return isinstance(x, (int, np.integer)) and not isinstance(x, bool) and x == v
    return isinstance(x, type(v)) and x == v


class Plain:
    @property
    def a_readonly(self):
        return 5


def initial(t):
    from qutip import Qobj
    return {"float": 0.125, "npfloat": np.float64(0.125), "int": 44, "npint": np.int64(44), "bool": True, "complex": 3j, "str": "start",
            "none": None, "list": [9], "array": np.array([4.0, 5.0]), "qobj": Qobj(np.eye(2))}[t]


def objects():
    from qutip_qtrl import optimconfig, termcond, dynamics, optimizer, pulsegen
    cfg = optimconfig.OptimConfig()
    dyn = dynamics.DynamicsUnitary(optimconfig.OptimConfig())
    opt = optimizer.OptimizerLBFGSB(dyn.config, dyn)
    O = {"config": cfg, "termconds": termcond.TerminationConditions(), "dynamics": dyn, "optim": opt,
         "pulsegen": pulsegen.create_pulse_gen("SQUARE", dyn), "obj": Plain()}
    for s, o in O.items():
        for t in TYPES:
            if t == "readonly":
                if s != "obj":
                    o.__class__ = type(o.__class__.__name__, (o.__class__,), {"a_readonly": property(lambda self: 5)})
            else:
                setattr(o, "a_" + t, initial(t))
        for a, t in REAL[s].items():
            v = None if t == "readonly" else getattr(o, a)
            if t == "bool" and not isinstance(v, bool) or t == "str" and not isinstance(v, str):
                setattr(o, a, initial(t))
    return O


PROPS = {"dynamics": ["num_tslots", "evo_time", "tau", "dumping", "phase_application", "dyn_gen_phase", "dump_dir"], "optim": ["dumping", "dump_dir"]}
ALONG = {("dynamics", "dyn_gen_phase"): ["phase_application"]}


def state(O):
    """What the objects show, by identity or value."""
    S = {}

    def put(s, a, v):
        S[s, a] = v.tobytes() if isinstance(v, np.ndarray) else repr(v) if isinstance(v, (str, int, float, complex, list, bool)) else id(v)
    for s, o in O.items():
        for a, v in o.__dict__.items():
            if not a.startswith("_"):
                put(s, a, v)
        for a in PROPS.get(s, ()):
            put(s, a, getattr(o, a))
    return S


def text(q, f, kind):
    secs = {}
    for o in f:
        secs.setdefault(o["s"], []).append(o)
    order = list(secs)
    q.shuffle(order)
    if q.random() < 0.3:
        order.insert(q.randrange(len(order) + 1), None)
    L = ["# parameters"] if q.random() < 0.5 else []
    for s in order:
        L.append("[%s]" % ("empty section" if s is None else SECTION[s]))
        for o in secs.get(s, ()):
            a = o["a"]
            if q.random() < 0.3:
                a = q.choice([a.upper(), a.title()])
            L.append("%s%s%s" % (a, q.choice(["=", " = ", ": ", ":", "  =  "]), LITERAL[o["k"]]))
            if q.random() < 0.2:
                L.append(q.choice(["", "; note", "# note"]))
    if kind == "twice":
        o = f[0]
        L.append("[%s]\n%s = 1\n%s = 2" % ("twice", "n", "n") if q.random() < 0.5 else "[%s]\n%s = 1" % (SECTION[o["s"]], "zzz"))
    if kind == "garbage":
        L.insert(q.choice([0, len(L)]), q.choice(["[nobracket", "no equals sign and no section"]))
    return "\n".join(L) + "\n"


def _work(job):
    recs, first, where = job
    from qutip_qtrl.loadparams import load_parameters
    import pathlib
    dev = []
    for n, h in enumerate(recs):
        kk = first + n
        q = rng("params", kk)
        O = objects()
        fn = os.path.join(where, "p%d_%d.ini" % (os.getpid(), kk % 2))

        def rep(key, d):
            if len(dev) < 30:
                dev.append(("params:" + key, dict(detail=str(d)[:500], history=[(o["kind"], o["given"], [(x["s"], x["a"], LITERAL[x["k"]]) for x in o["file"]])
                                                                                 for o in h])))
        start = state(O)
        for o in h:
            before = state(O)
            with open(fn, "w") as fh:
                fh.write(text(q, o["file"], o["kind"]))
            given = set(o["given"])
            kw = {("term_conds" if s == "termconds" else s): O[s] for s in given}
            if "obj" in given and o["kind"] != "nosection":
                kw["section"] = SECTION["obj"]
            elif q.random() < 0.1 and o["kind"] != "nosection":
                kw["section"] = SECTION["obj"]
            if o["kind"] == "nosection" and q.random() < 0.3:
                kw["section"] = 3
            name = fn + ".no" if o["kind"] == "missing" else fn
            if q.random() < 0.3:
                name = pathlib.Path(name)
            err = None
            try:
                load_parameters(name, **kw)
            except Exception as e:
                err = e
            if o["kind"] == "load" and err is not None:
                rep("raises-%s" % type(err).__name__, err)
                break
            if o["kind"] != "load":
                if err is None:
                    rep(o["kind"] + "-not-an-error", "")
                    break
                if o["kind"] in ("missing", "nosection") and not isinstance(err, ValueError):
                    rep(o["kind"] + "-" + type(err).__name__, err)
            now = {(x["s"], x["a"]): x for x in o["now"]}
            for (s, a), x in now.items():
                v = getattr(O[s], a)
                if not is_value(v, x["t"], x["v"]):
                    rep("value-%s" % x["t"], "%s.%s is %r, want %r" % (s, a, v, value(x["t"], x["v"])))
                    break
            after = state(O)
            allow = set(now) if o["kind"] == "load" else set()
            for p in list(allow):
                allow.update((p[0], b) for b in ALONG.get(p, ()))
            ch = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and p not in allow]
            if ch:
                rep("changed-%s" % ("unsaid" if o["kind"] == "load" else o["kind"]), [(p, getattr(O[p[0]], p[1], None)) for p in ch][:4])
            if dev:
                break
        try:
            os.unlink(fn)
        except OSError:
            pass
    return len(recs), dev


def run(pid):
    thorough = TIER == "thorough"
    import_repo()
    ck = Check(pid)
    inv = ["TypeOK", "Idem"]
    T0 = {"a_" + t: t for t in TYPES}
    for d in REAL.values():
        T0.update(d)
    gen = {"a_" + t for t in TYPES}
    a = run_tlc("LoadParams", dict(Mode="all", Secs={"obj"}, Attrs={"obj": gen}, Types0=T0, MaxLoads=2, MaxOpts=1),
                invariants=inv, properties=["Settled", "OnlySaid"], emit="Emit")
    ck.tlc(a, "LoadParams, two loads of one option each, exhaustive")
    A2 = {s: gen | set(REAL[s]) for s in REAL}
    b = run_tlc("LoadParams", dict(Mode="any", Secs=set(REAL), Attrs=A2, Types0=T0, MaxLoads=3, MaxOpts=14),
                invariants=inv, emit="Emit", simulate=30000 if thorough else 4000, depth=60, workers=1)
    ck.tlc(b, "LoadParams simulated")
    key = lambda h: json.dumps(h)
    A, B = sorted(a.emitted, key=key), sorted(b.emitted, key=key)
    r = rng("params")
    A = r.sample(A, min(len(A), 60000 if thorough else 8000))
    B = r.sample(B, min(len(B), 30000 if thorough else 4000))
    recs = A + B
    ck.sample({"history": [(o["kind"], o["given"], [(x["s"], x["a"], LITERAL[x["k"]]) for x in o["file"]]) for o in B[0]]})
    where = scratch()
    for n, dev in pmap(_work, [(recs[k:k + 100], k, where) for k in range(0, len(recs), 100)], chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    ck.assumptions.append("option names are matched without regard to case, as the parser of the standard library does; names of methods as options are left open")
    return ck
