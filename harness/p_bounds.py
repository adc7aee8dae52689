"""P09: amplitude bounds from request to minimiser and pulses (spec/Bounds.tla),
the bounds of scripted runs (spec/Optim.tla) and of recorded real runs (spec/RunTrace.tla)."""
import inspect
import numpy as np
from common import *
import evo, optim, p_optim, runs

U = 0.37         # unit of amplitude
SX = np.array([[0, 1], [1, 0]], dtype=complex)
SY = np.array([[0, -1j], [1j, 0]])
SZ = np.diag([1.0, -1.0]).astype(complex)
MIN = ["L-BFGS-B", "TNC", "SLSQP", "Nelder-Mead", "Powell"]
TYPES = [t for t in runs.PULSES if t != "DEF"]


def val(l, side, q):
    if l[0] == "none":
        return None
    if l[0] == "inf":
        return q.choice([np.inf, float("inf")]) * side
    v = l[1] * U
    return q.choice([v, np.float64(v), int(0) if v == 0 else v])


def req(r, side, q):
    v = [val(l, side, q) for l in r["v"]]
    return v[0] if r["k"] == "scalar" else v


def lim(l):
    return None if l[0] == "none" else l[1] * U


def inside(a, per, tol=1e-9):
    for j, (l, u) in enumerate(per):
        l, u = lim(l), lim(u)
        if (l is not None and np.min(a[:, j]) < l - tol) or (u is not None and np.max(a[:, j]) > u + tol):
            return False
    return True


def _work(job):
    recs, first = job
    import scipy.optimize as so
    from qutip import Qobj
    from qutip_qtrl import pulseoptim as po
    dev = []
    for n, rec in enumerate(recs):
        k = first + n
        q = rng("bounds", k)
        r = np.random.RandomState(np_seed("bounds", k))
        np.random.seed(np_seed("bounds-global", k))
        cfg, h = rec["cfg"], rec["h"]
        nc, ns, crab = cfg["nc"], cfg["ns"], cfg["crab"]
        method = q.choice(["DEF", "FMIN_L_BFGS_B"] + MIN) if not crab else q.choice(["DEF", "fmin", "Nelder-Mead", "Powell"])
        ptype = q.choice(TYPES)
        desc = dict(cfg=cfg, method=method, pulse=ptype, history=[(o["op"], o["lo"], o["up"], len(o["ex"])) for o in h])

        def rep(key, d):
            if len(dev) < 30:
                dev.append(("bounds:" + key, dict(desc, detail=str(d)[:700])))
        seen = {}

        def fake(name, orig):
            sig = inspect.signature(orig)

            def go(*args, **kw):
                a = dict(sig.bind(*args, **kw).arguments)
                f = a.get("fun", a.get("f", a.get("func")))
                x0 = np.array(a["x0"], dtype=float).ravel()
                seen.update(bounds=a.get("bounds"), x0=x0.copy(), n=seen.get("n", 0) + 1)
                if crab:
                    for m in range(5):
                        x0 = r.normal(size=len(x0)) * q.choice([0.1, 1, 10, 100])
                        f(x0)
                        if not inside(opt.dynamics.ctrl_amps, seen["ctrl"]):
                            rep("crab-evaluated-outside", "%s bounds %s" % (opt.dynamics.ctrl_amps.tolist(), seen["ctrl"]))
                if name == "minimize":
                    return so.OptimizeResult(x=x0, fun=0.5, nit=1, status=0, success=True, message="x")
                if name == "fmin":
                    return x0, 0.5, 1, 7, 0
                if name == "fmin_l_bfgs_b":
                    return x0, 0.5, {"warnflag": 1, "task": "x", "nit": 1, "funcalls": 7, "grad": np.zeros_like(x0)}
                return x0, 0.5, np.zeros_like(x0), np.eye(len(x0)), 7, 7, 1
            return go
        subs = [(getattr(so, m), fake(m, getattr(so, m))) for m in ("minimize", "fmin_bfgs", "fmin_l_bfgs_b", "fmin")]
        try:
            with optim.Patch(subs):
                for o in h:
                    if o["op"] == "create":
                        kw = dict(alg="CRAB", alg_params=dict(num_coeffs=q.choice([1, 2]))) if crab else {}
                        if crab and q.random() < 0.5:
                            kw.update(init_pulse_type=ptype, init_pulse_params=dict(pulse_action=q.choice(["ADD", "MODULATE"])))
                        elif not crab:
                            kw.update(init_pulse_type=ptype)
                        if crab and q.random() < 0.3:
                            kw.update(ramping_pulse_type="GAUSSIAN_EDGE")
                        if method != "DEF":
                            kw["optim_method"] = method
                        lo, up = req(o["lo"], -1, q), req(o["up"], 1, q)
                        if lo is not None or q.random() < 0.5:
                            kw["amp_lbound"] = lo
                        if up is not None or q.random() < 0.5:
                            kw["amp_ubound"] = up
                        kw.update(pulse_scaling=q.choice([1.0, 0.3, 4.0]), pulse_offset=q.choice([0.0, 0.9, -2.2]))
                        args = (Qobj(SZ), [Qobj(c) for c in (SX, SY, SZ)[:nc]], Qobj(np.eye(2)), Qobj(SX))
                        kw.update(num_tslots=ns, evo_time=1.0, dyn_type="UNIT")
                        # the pulse every optimisation starts from
                        if not crab:
                            amps = po.optimize_pulse(*args, **kw).initial_amps
                            b = seen["bounds"]
                        if not crab and q.random() < 0.3:
                            # an optimiser made by hand, told of the bounds by its configuration
                            lo, up = kw.pop("amp_lbound", None), kw.pop("amp_ubound", None)
                            made = po.create_pulse_optimizer(*args, **kw)
                            made.config.amp_lbound, made.config.amp_ubound = lo, up
                            opt = type(made)(made.config, made.dynamics)
                            opt.method, opt.termination_conditions = made.method, made.termination_conditions
                        else:
                            opt = po.create_pulse_optimizer(*args, **kw)
                        dyn = opt.dynamics
                        if crab:
                            amps = np.zeros((ns, nc))
                            for j, g in enumerate(opt.pulse_generator):
                                g.init_pulse()
                                amps[:, j] = g.gen_pulse()
                        if not inside(amps, o["ctrl"], 0.0):
                            rep("initial-outside", "%s bounds %s" % (amps.tolist(), o["ctrl"]))
                        if crab:
                            dyn.initialize_controls(amps)
                    elif o["op"] == "request":
                        opt.amp_lbound, opt.amp_ubound = req(o["lo"], -1, q), req(o["up"], 1, q)
                    elif o["op"] == "pairs":
                        opt.bounds = [tuple(lim(l) for l in p) for p in o["ex"]]
                    elif o["op"] == "drop":
                        opt.bounds = None
                    elif o["op"] == "run":
                        seen["ctrl"] = o["ctrl"]
                        seen["n"] = 0
                        if not crab:
                            amps = np.round(r.uniform(-1, 1, (ns, nc)), 3)
                            dyn.initialize_controls(amps.copy())
                        res = opt.run_optimization()
                        if seen["n"] != 1:
                            rep("minimiser-not-run", seen["n"])
                            continue
                        if crab:
                            if not inside(res.final_amps, o["ctrl"]):
                                rep("crab-final-outside", res.final_amps.tolist())
                            continue
                        b = seen["bounds"]
                        norm = [(None, None)] * (ns * nc) if b is None else [
                            tuple(None if v is None or np.isinf(v) else float(v) for v in p) for p in b]
                        if len(norm) != len(o["want"]) or not all(
                                (x is None) == (lim(w) is None) and (x is None or abs(x - lim(w)) < 1e-12)
                                for p, ww in zip(norm, o["want"]) for x, w in zip(p, ww)):
                            rep("passed", "%s want %s" % (b, o["want"]))
                        if not evo.close(seen["x0"], amps.ravel(), 1e-12):
                            rep("variables-order", "")
        except Exception:
            rep(o["op"] + "-raises", short_tb())
    return len(recs), dev


def requests(q, n):
    def limits(side):
        return q.choice([("none", 0), ("inf", 0), ("at", 0), ("at", side * 3), ("at", side), ("at", side * q.randint(0, 9))])

    def pair():
        if q.random() < 0.2:      # both on one side of zero
            a = q.randint(-9, 9)
            return ("at", a), ("at", a + q.randint(1, 6))
        return limits(-1), limits(1)
    out = set()
    while len(out) < n:
        nc, ns = q.randint(1, 3), q.choice([1, 2, 4])
        ps = [pair() for _ in range(nc)]
        lk, uk = q.choice(["scalar", "list"]), q.choice(["scalar", "list"])
        lo, up = [p[0] for p in ps], [p[1] for p in ps]
        if lk == "scalar":
            lo = [lo[0]] * 1
        if uk == "scalar":
            up = [up[0]] * 1
        one = lambda k, v, c: v[0] if k == "scalar" else v[c]
        fin = lambda l, s: l[1] if l[0] == "at" else s * 1000
        if any(fin(one(lk, lo, c), -1) >= fin(one(uk, up, c), 1) for c in range(nc)):
            continue
        out.add((nc, ns, lk, tuple(lo), uk, tuple(up), q.random() < 0.35))
    return [dict(nc=a, ns=b, lo=dict(k=lk, v=[list(x) for x in lo]), up=dict(k=uk, v=[list(x) for x in up]), crab=c)
            for a, b, lk, lo, uk, up, c in sorted(out)]


def run(pid):
    thorough = TIER == "thorough"
    import_repo()
    ck = Check(pid)
    q = rng("bounds-requests")
    R = requests(q, 4000 if thorough else 700)
    rt = Raw("{" + ", ".join("[nc |-> %d, ns |-> %d, crab |-> %s, lo |-> %s, up |-> %s]" % (
        x["nc"], x["ns"], "TRUE" if x["crab"] else "FALSE", tlim(x["lo"]), tlim(x["up"])) for x in R) + "}")
    inv = ["TypeOK", "PerControl", "Ordered", "NoInf"]
    s = run_tlc("Bounds", dict(Reqs=rt, MaxOps=2), invariants=inv, emit="Emit")
    ck.tlc(s, "Bounds, first runs")
    m = run_tlc("Bounds", dict(Reqs=rt, MaxOps=8), invariants=inv, emit="Emit", simulate=10000 if thorough else 1200, depth=10, workers=1)
    ck.tlc(m, "Bounds, repeated runs (simulated)")
    key = lambda x: json.dumps(x, sort_keys=True)
    recs = sorted(s.emitted, key=key)
    recs = recs * (4 if thorough else 2) + sorted(m.emitted, key=key)[:20000]
    ck.sample({"history": [(o["op"], o["lo"], o["up"]) for o in recs[-1]["h"]]})
    for n, dev in pmap(_work, [(recs[k:k + 60], k) for k in range(0, len(recs), 60)], chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    probs = p_optim.prepare(ck, [p for p in optim.oproblems() if p.cls in ("MIN", "LBFGSB")], pid)
    p_optim.replay(ck, pid, probs, thorough, 400 if thorough else 40)
    runs.judge(ck, pid, 12000 if thorough else 1500)
    ck.assumptions += ["a lower bound is below the upper one for every control",
                       "evaluated pulses of real runs are judged for methods that respect bounds, to 2e-6"]
    return ck


def tlim(r):
    return '[k |-> "%s", v |-> <<%s>>]' % (r["k"], ", ".join('<<"%s", %d>>' % tuple(l) for l in r["v"]))
