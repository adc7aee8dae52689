"""P17, P18: what the options of a call configure, whichever entry point (spec/Config.tla)."""
import inspect, warnings, io, contextlib
import numpy as np
from common import *
import evo, optim

X = np.array([[0, 1], [1, 0]], dtype=complex)
Z = np.diag([1.0, -1.0]).astype(complex)
S1 = np.array([[1.0, 0.3], [0.3, 2.0]])
S2 = np.array([[0.2, 0.9], [0.9, -0.5]])
N, T = 4, 1.2
TAU = [0.2, 0.4, 0.3, 0.3]
VAL = {  # option: (argument, entry of the dictionary)
    "targ": (0.003, 0.004), "iters": (17, 19), "wall": (21, 23), "mingrad": (1e-3, 2e-3), "calls": (None, 29),
    "maxcor": (11, 12), "accur": (1e6, 2e6), "mopt": (None, 5), "scale": (0.6, 0.8), "scaling": (0.5, 0.7), "offset": (0.25, -0.4),
    "ncoef": (2, 3), "cscale": (0.5, 2.0), "freq": (None, False), "crabp": (None, {"marker": 107}), "rampp": (None, 0.05)}
OWN = {"dynp": {"def_amps_fname": "own.txt", "fact_mat_round_prec": 1e-7}, "optp": {"amp_lbound": -0.45, "amp_ubound": 0.55}, "crabp": {"scaling": 0.9, "num_coeffs": 4}}
MARK = {"dynp": 101, "propp": 102, "fidp": 103, "optp": 104, "tslotp": 105, "pulsep": 106}
BOUND = {"arg": (-0.9, 1.1), "list": ([-0.8, -0.7], [1.2, 1.3])}
DFLT = {"1e-5": 1e-5, "1e-10": 1e-10, "0": 0.0, "500": 500, "180": 180}
MINNAMES = {"nelder-mead", "powell", "cg", "bfgs", "l-bfgs-b", "tnc", "cobyla", "slsqp"}


def value(c, f):
    """(argument, entry)"""
    a, d = {"phase": ("SU", "PSU" if c["phase"] == "both" else "SU"),
            "action": ("ADD", "MODULATE" if c["action"] == "both" else "ADD")}.get(f) or VAL[f]
    return a, d


def eff(c, f, src, default=None):
    a, d = value(c, f)
    return {"dict": d, "arg": a}.get(src, default)


def Qo(m):
    from qutip import Qobj
    return Qobj(m)


LOG = {"INTENSE": 6, "VERBOSE": 8, "DEBUG": 10, "INFO": 20, "WARN": 30}


def system(dyn, oper, q, N=N):
    """Operators of the call, with the mistake asked for."""
    if dyn == "SYMPL":
        drift, ctrls, ini, tgt = S1, [S2, S1 - S2], np.eye(2), evo.expm_ref(0.4 * evo.omega_ref(1) @ S1).real
    elif dyn == "UNIT":
        drift, ctrls, ini, tgt = Z, [X, X + 0.3 * Z], np.eye(2), X
    else:
        drift, ctrls, ini, tgt = -1j * Z - 0.1 * np.eye(2), [-1j * X, 0.2 * Z], np.eye(2), -1j * X
    d, cs, i, t = Qo(drift), [Qo(m) for m in ctrls], Qo(ini), Qo(tgt)
    o3 = Qo(np.diag([1.0, 2.0, 3.0]))
    per = lambda n: [[Qo(m) for m in ctrls] for _ in range(n)]

    def obj(rows):
        a = np.empty((len(rows), 2), dtype=object)
        for k, r in enumerate(rows):
            for j in range(2):
                a[k, j] = r[j]
        return a
    one = np.empty(2, dtype=object)
    one[0], one[1] = cs
    M = {"drift-array": dict(d=drift), "drift-none": dict(d=None), "drift-list-bad": dict(d=[d, d, drift, d]),
         "drift-short": dict(d=[d] * (N - 1)), "drift-long": dict(d=[d] * (N + 1)), "drift-empty": dict(d=[]), "drift-dim": dict(d=o3),
         "ctrls-qobj": dict(c=cs[0]), "ctrls-none": dict(c=None), "ctrls-entry": dict(c=[cs[0], ctrls[1]]), "ctrls-1d": dict(c=one),
         "ctrls-empty": dict(c=[]), "ctrls-dim": dict(c=[cs[0], o3]), "ctrls-short": dict(c=q.choice([per, lambda n: obj(per(n))])(N - 1)),
         "ctrls-long": dict(c=q.choice([per, lambda n: obj(per(n))])(N + 1)), "ctrls-ragged": dict(c=per(N - 1) + [[cs[0]]]),
         "initial-array": dict(i=ini), "initial-none": dict(i=None), "initial-dim": dict(i=o3),
         "target-array": dict(t=tgt), "target-none": dict(t=None), "target-dim": dict(t=o3),
         "ok-tuple": dict(c=tuple(cs)), "ok-per-slot": dict(d=[Qo(drift) for _ in range(N)], c=obj(per(N))), "ok-nested": dict(c=per(N)),
         "ok-array": dict(c=obj(per(N)))}.get(oper, {})
    return M.get("d", d), M.get("c", cs), M.get("i", i), M.get("t", t)


NONE = {"None": None}


def call_args(c, dyn, q, canon=None):
    """Keyword arguments of the call c of the specification; canon=(res) for the
    canonical call, where everything is said through the general arguments."""
    e = c["entry"]
    un = e in ("unitary", "crabunit")
    crab = e in ("crab", "crabunit")
    # names of the minimisers themselves for the same parameters (only as entries)
    other = q.random() < 0.4
    d, cs, i, t = system(dyn, c["oper"], q, 1 if c["timing"] == "one" else N)
    kw = dict(zip(("H_d", "H_c", "U_0", "U_targ") if un else ("drift", "ctrls", "initial", "target"), (d, cs, i, t)))
    src = (lambda f: canon["src"][f]) if canon else (lambda f: c[f])
    mp, fp, ip, ap = {}, {}, {}, {}

    def put(f, argname, dic, key):
        a, v = value(c, f)
        s = src(f)
        if s == "dict" and other and c[f] == "dict":
            key = {"max_metric_corr": "maxcor", "accuracy_factor": "ftol"}.get(key, key)
        if canon:
            if s != "default":
                dic[key] = eff(c, f, s)
            return
        if s in ("arg", "both"):
            kw[argname] = a
        if s in ("dict", "both"):
            dic[key] = v
    for f, name, key in (("targ", "fid_err_targ", "fid_err_targ"), ("iters", "max_iter", "max_iterations"),
                         ("wall", "max_wall_time", "max_wall_time"), ("mingrad", "min_grad", "min_gradient_norm")):
        if canon:
            kw[name] = eff(c, f, src(f), DFLT[canon["dflt"][f]])
        else:
            put(f, name, mp, key)
    put("calls", None, mp, "max_fid_func_calls")
    put("maxcor", "max_metric_corr", mp, "max_metric_corr")
    put("accur", "accuracy_factor", mp, "accuracy_factor")
    put("mopt", None, mp, "xtra")
    put("phase", "phase_option", fp, "phase_option")
    put("scale", "fid_err_scale_factor", fp, "scale_factor")
    g = "guess_pulse_" if crab else "pulse_"
    if canon:
        kw["pulse_scaling"] = eff(c, "scaling", src("scaling"), 1.0)
        kw["pulse_offset"] = eff(c, "offset", src("offset"), 0.0)
    else:
        put("scaling", g + "scaling", ip, "scaling")
        put("offset", g + "offset", ip, "offset")
    put("action", "guess_pulse_action", ip, "pulse_action")
    put("ncoef", "num_coeffs", ap, "num_coeffs")
    put("cscale", "init_coeff_scaling", ap, "init_coeff_scaling")
    put("freq", None, ap, "fix_frequency")
    if c["crabp"] == "own":
        ap["crab_pulse_params"] = dict(OWN["crabp"])
    else:
        put("crabp", None, ap, "crab_pulse_params")
    D = {"method_params": mp, "fid_params": fp, ("guess_pulse_params" if crab else "init_pulse_params"): ip, "alg_params": ap}
    for f, k in (("dynp", "dyn_params"), ("propp", "prop_params"), ("fidp", "fid_params"), ("optp", "optim_params"),
                 ("tslotp", "tslot_params"), ("pulsep", "guess_pulse_params" if crab else "init_pulse_params")):
        if c[f] == "dict":
            D.setdefault(k, {})["marker"] = MARK[f]
        elif c[f] == "own":
            D.setdefault(k, {}).update(OWN[f])
    if c["rampp"] == "dict":
        D["ramping_pulse_params"] = {"decay_time": 0.05} if c["ramp"] != "LIN" else {"gradient": 0.5}
    for k, v in D.items():
        if v or (not canon and q.random() < 0.3):
            kw[k] = v
    if c["lb"] != "-":
        kw["amp_lbound"] = BOUND[c["lb"]][0] if c["lb"] == "arg" else list(BOUND["list"][0])
    if c["ub"] != "-":
        kw["amp_ubound"] = BOUND[c["ub"]][1] if c["ub"] == "arg" else list(BOUND["list"][1])
    if c["log"] != "-":
        kw["log_level"] = LOG[c["log"]]
    if c["amode"] != "-":
        kw["amp_update_mode"] = c["amode"]
    if c["stats"] == "on":
        kw["gen_stats"] = True
    for f, k in (("alg", "alg"), ("method", "optim_alg" if c["via"] == "alg" else "optim_method"), ("dyn", "dyn_type"),
                 ("prop", "prop_type"), ("fid", "fid_type"), ("pulse", "guess_pulse_type" if crab else "init_pulse_type"),
                 ("ramp", "ramping_pulse_type")):
        if c[f] != "-":
            kw[k] = NONE.get(c[f], c[f])
    tm = c["timing"]
    if tm in ("-", "tau-and-both", "slots", "no-slots", "one"):
        kw["num_tslots"] = {"no-slots": 0, "tau-and-both": 9, "one": 1}.get(tm, N)
    if tm in ("-", "tau-and-both", "time", "no-slots", "one"):
        kw["evo_time"] = 7.7 if tm == "tau-and-both" else T
    if tm in ("tau", "tau-and-both"):
        kw["tau"] = np.array(TAU)
    if tm == "tau-list":
        kw["tau"] = list(TAU)
    return kw


def freeze(x):
    """Deep image of an argument, to see whether it was changed."""
    from qutip import Qobj
    if isinstance(x, dict):
        return ("dict", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, Qobj):
        return ("Qobj", id(x), str(x.dims), x.full().tobytes())
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), tuple(freeze(v) for v in x.ravel()) if x.dtype == object else x.tobytes())
    return repr(x)


class Obs:
    """Runs one call with a minimiser that only looks at what it is given."""

    def __init__(self, c, kw, seed):
        import scipy.optimize as so
        from qutip_qtrl import pulseoptim as po, optimizer
        self.gens = c["gens"]
        self.optis, self.seen, self.evals, self.err, self.res = [], [], 0, None, None
        real = optimizer.Optimizer.__init__
        # the level a call asks for stays with the module's logger
        po.logger.setLevel(30)

        def oinit(o, *a, **k):
            real(o, *a, **k)
            self.optis.append(o)
        subs = [(getattr(so, m), self._fake(m, getattr(so, m))) for m in ("minimize", "fmin_bfgs", "fmin_l_bfgs_b", "fmin")]
        fn = {"create": po.create_pulse_optimizer, "general": po.optimize_pulse, "unitary": po.optimize_pulse_unitary,
              "crab": po.opt_pulse_crab, "crabunit": po.opt_pulse_crab_unitary}[c["entry"]]
        np.random.seed(seed)
        optimizer.Optimizer.__init__ = oinit
        self.tb = None
        try:
            with optim.Patch(subs), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                out = fn(**kw)
                if c["entry"] == "create":
                    self.created = out
                    self._by_hand(out, kw)
                else:
                    self.res = out
        except Exception as ex:
            self.err, self.tb = ex, short_tb()
        finally:
            optimizer.Optimizer.__init__ = real
        self.opt = self.optis[-1] if self.optis else None

    def _by_hand(self, opt, kw):
        dyn = opt.dynamics
        amps = np.zeros((dyn.num_tslots, dyn.num_ctrls))
        pick = lambda b, j: b[j] if isinstance(b, list) else b
        for j in range(dyn.num_ctrls):
            g = opt.pulse_generator
            if isinstance(g, list):
                g = g[j]
                g.init_pulse()
            else:
                g.lbound, g.ubound = pick(kw.get("amp_lbound"), j), pick(kw.get("amp_ubound"), j)
            amps[:, j] = g.gen_pulse()
        dyn.initialize_controls(amps)
        dyn.fid_computer.get_fid_err()
        g = opt.pulse_generator
        if self.gens != "-":
            from qutip_qtrl import pulsegen
            opt.pulse_generator = {"none": lambda: None, "single": lambda: g[0], "fewer": lambda: g[:1], "more": lambda: list(g) + [g[0]],
                                   "wrong": lambda: [g[0], pulsegen.PulseGenZero(dyn)]}[self.gens]()
        self.res = opt.run_optimization()

    def _fake(self, name, orig):
        import scipy.optimize as so
        sig = inspect.signature(orig)

        def go(*args, **kw):
            a = dict(sig.bind(*args, **kw).arguments)
            f = a.get("fun", a.get("f", a.get("func")))
            x0 = np.array(a["x0"], dtype=float).ravel()
            if name == "minimize" and str(a.get("method")).lower() not in MINNAMES:
                def counted(*x):
                    self.evals += 1
                    return f(*x)
                a["fun"] = counted
                return orig(**a)
            d = {k: (v if not callable(v) else "callable") for k, v in a.items()}
            d["x0"] = x0.copy()
            self.seen.append((name, d))
            x = x0 + 0.01
            if name == "minimize":
                return so.OptimizeResult(x=x, fun=0.5, nit=1, status=0, success=True, message="x")
            if name == "fmin":
                return x, 0.5, 1, 7, 0
            if name == "fmin_l_bfgs_b":
                return x, 0.5, {"warnflag": 1, "task": "x", "nit": 1, "funcalls": 7, "grad": np.zeros_like(x)}
            return x, 0.5, np.zeros_like(x), np.eye(len(x)), 7, 7, 1
        return go

    def config(self):
        """What was configured and what reached the minimiser."""
        o = self.opt
        dyn, tc = o.dynamics, o.termination_conditions
        g = o.pulse_generator
        gs = g if isinstance(g, list) else [g]
        d = dict(alg=o.alg, optimizer=type(o).__name__, method=o.method, dyn=type(dyn).__name__, prop=type(dyn.prop_computer).__name__,
                 fid=type(dyn.fid_computer).__name__, pulse=[type(x).__name__ for x in gs], tslot=type(dyn.tslot_computer).__name__,
                 targ=tc.fid_err_targ, iters=tc.max_iterations, wall=tc.max_wall_time, mingrad=tc.min_gradient_norm,
                 calls=tc.max_fid_func_calls, stats=(o.stats is not None, dyn.stats is o.stats), lb=o.amp_lbound, ub=o.amp_ubound,
                 phase=getattr(dyn.fid_computer, "phase_option", None), scale=getattr(dyn.fid_computer, "scale_factor", None),
                 mopt=(o.method_options or {}).get("xtra"), tau=np.array(dyn.tau, dtype=float),
                 dynp=getattr(dyn, "marker", None), propp=getattr(dyn.prop_computer, "marker", None),
                 fidp=getattr(dyn.fid_computer, "marker", None), optp=getattr(o, "marker", None),
                 own=[getattr(dyn, k, None) for k in OWN["dynp"]],
                 tslotp=getattr(dyn.tslot_computer, "marker", None))
        for k in ("scaling", "offset", "lbound", "ubound", "num_coeffs", "guess_pulse_action", "guess_pulse", "ramping_pulse", "fix_freqs",
                  "marker", "num_tslots", "pulse_time"):
            d["pulse." + k] = [getattr(x, k, None) for x in gs]
        return d

    def outcome(self):
        d = {}
        for n, (name, a) in enumerate(self.seen):
            d["minimiser%d" % n] = name
            for k, v in a.items():
                d["passed%d.%s" % (n, k)] = v
        r = self.res
        if r is not None:
            for k in ("initial_amps", "final_amps", "initial_fid_err", "fid_err", "time", "termination_reason", "num_fid_func_calls", "num_iter"):
                d["result." + k] = getattr(r, k)
            d["result.evo"] = evo.full(r.evo_full_final)
            d["result.stats"] = r.stats is not None
        return d


def differ(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b or not same(a[k], b[k]):
            out.append((k, a.get(k, "missing"), b.get(k, "missing")))
    return out


def same(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return not differ(x, y)
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return x is not None and y is not None and np.shape(x) == np.shape(y) and evo.close(x, y, 1e-12)
    if isinstance(x, float) and isinstance(y, (int, float)):
        return x == y or (x != x and y != y) or abs(x - y) <= 1e-12 * (1 + abs(y))
    return x == y


GEN = {"RND": "PulseGenRandom", "LIN": "PulseGenLinear", "ZERO": "PulseGenZero", "SINE": "PulseGenSine", "SQUARE": "PulseGenSquare",
       "SAW": "PulseGenSaw", "TRIANGLE": "PulseGenTriangle", "GAUSSIAN": "PulseGenGaussian", "GAUSSIAN_EDGE": "PulseGenGaussianEdge",
       "RNDFOURIER": "PulseGenRndFourier", "RNDWAVES": "PulseGenRndWaves", "RNDWALK1": "PulseGenRndWalk1", "RNDWALK2": "PulseGenRndWalk2"}


def judge_config(rec, ob):
    """P17: deviations of the configuration from the specified one."""
    c, r = rec["c"], rec["res"]
    got = ob.config()
    crab = r["alg"] == "CRAB"
    out = []
    A = lambda ok, k, w=None: ok or out.append((k, "%r want %r" % (got.get(k), w)))
    for k in ("alg", "optimizer", "dyn", "prop", "fid"):
        A(got[k] == r[k], k, r[k])
    if c["method"] != "-" and r["optimizer"] in ("Optimizer", "OptimizerCrab"):
        A(str(got["method"]).lower() == r["method"].lower(), "method", r["method"])
    want = ["PulseGenCrabFourier"] * 2 if crab else [GEN[r["pulse"]]]
    A(got["pulse"] == want, "pulse", want)
    for f in ("targ", "iters", "wall", "mingrad"):
        w = eff(c, f, r["src"][f], DFLT[r["dflt"][f]])
        A(got[f] == w, f, w)
    if r["src"]["calls"] != "default":
        A(got["calls"] == 29, "calls", 29)
    if r["src"]["mopt"] != "default":
        A(got["mopt"] == 5, "mopt", 5)
    for f in ("maxcor", "accur"):
        if r["src"][f] != "default" and r["optimizer"] == "OptimizerLBFGSB" and ob.seen:
            k, w = {"maxcor": "m", "accur": "factr"}[f], eff(c, f, r["src"][f])
            v = ob.seen[0][1].get(k)
            A(v == w, f + "-passed", "%r passed %r" % (w, v))
        elif r["src"][f] != "default" and r["optimizer"] == "Optimizer" and ob.seen:
            k, w = {"maxcor": "maxcor", "accur": "ftol"}[f], eff(c, f, r["src"][f])
            v = ob.seen[0][1].get("options", {}).get(k)
            A(v == w, f + "-passed", "%r passed %r" % (w, v))
    if r["fid"] == "FidCompUnitary":
        w = eff(c, "phase", r["src"]["phase"], "PSU")
        A(got["phase"] == w, "phase", w)
    if r["src"]["scale"] != "default":
        w = eff(c, "scale", r["src"]["scale"])
        A(got["scale"] == w, "scale", w)
    for f, m in MARK.items():
        if f != "pulsep":
            w = m if c[f] == "dict" else None
            A(got[f] == w, f, w)
    if c["dynp"] == "own":
        w = list(OWN["dynp"].values())
        A(got["own"] == w, "own", w)
    A(got["stats"] == ((True, True) if c["stats"] == "on" else (False, True)), "stats", c["stats"])
    for f, k in (("lb", 0), ("ub", 1)):
        w = None if c[f] == "-" else BOUND[c[f]][k]
        v = OWN["optp"]["amp_%sbound" % "lu"[k]] if r["src"][f] == "own" else w
        A(same(got[f], v), f, v)
        per = [w[j] if isinstance(w, list) else w for j in range(2)]
        if crab:
            A(same(got["pulse." + "lu"[k] + "bound"], per), "pulse." + "lu"[k] + "bound", per)
    if crab:
        if c["crabp"] == "own":
            A(got["pulse.num_coeffs"] == [4, 4], "pulse.num_coeffs", 4)
        elif r["src"]["ncoef"] != "default":
            w = eff(c, "ncoef", r["src"]["ncoef"])
            A(got["pulse.num_coeffs"] == [w, w], "pulse.num_coeffs", w)
        w = OWN["crabp"]["scaling"] if r["src"]["cscale"] == "own" else eff(c, "cscale", r["src"]["cscale"], 1.0)
        A(got["pulse.scaling"] == [w, w], "pulse.scaling", w)
        w = c["freq"] != "dict"
        A(got["pulse.fix_freqs"] == [w, w], "pulse.fix_freqs", w)
        w = 107 if c["crabp"] == "dict" else None
        A(got["pulse.marker"] == [w, w], "pulse.marker", w)
        if r["pulse"] != "none":
            w = eff(c, "action", r["src"]["action"], "MODULATE")
            A(got["pulse.guess_pulse_action"] == [w, w], "pulse.guess_pulse_action", w)
        A(all((x is None) == (r["pulse"] == "none") for x in got["pulse.guess_pulse"]), "pulse.guess_pulse", r["pulse"])
        A(all((x is None) == (r["ramp"] == "-") for x in got["pulse.ramping_pulse"]), "pulse.ramping_pulse", r["ramp"])
        if r["pulse"] == "ZERO" and c["lb"] == "-" and c["ub"] == "-":
            w = np.full(1 if c["timing"] == "one" else N, eff(c, "offset", r["src"]["offset"], 0.0))
            A(all(same(x, w) for x in got["pulse.guess_pulse"]), "pulse.guess_pulse", w)
    else:
        w = eff(c, "scaling", r["src"]["scaling"], 1.0)
        A(got["pulse.scaling"] == [w], "pulse.scaling", w)
        w = eff(c, "offset", r["src"]["offset"], 0.0)
        A(got["pulse.offset"] == [w], "pulse.offset", w)
        w = 106 if c["pulsep"] == "dict" else None
        A(got["pulse.marker"] == [w], "pulse.marker", w)
    tau = np.array(TAU) if c["timing"].startswith("tau") else np.full(1, T) if c["timing"] == "one" else np.full(N, T / N)
    A(evo.close(got["tau"], tau, 1e-6), "tau", tau)
    return out


def _work(job):
    pid, recs, first = job
    dev = []
    from qutip_qtrl import errors
    ok = (errors.UsageError, TypeError, ValueError)
    for n, rec in enumerate(recs):
        k = first + n
        q = rng("config", k)
        c, r = rec["c"], rec["res"]
        desc = {f: v for f, v in c.items() if v != "-"}

        def rep(key, d):
            if len(dev) < 30:
                dev.append(("config:" + key, dict(call=desc, detail=str(d)[:600])))
        dynk = {"DynamicsUnitary": "UNIT", "DynamicsSymplectic": "SYMPL"}.get(r["dyn"], "GEN_MAT")
        runs = not (r["prop"] == "PropCompDiag" and dynk != "UNIT")
        kw = call_args(c, dynk, rng("config-sys", k))
        before = freeze(kw)
        seed = np_seed("config", k)
        ob = Obs(c, kw, seed)
        if pid == "P18" and freeze(kw) != before:
            bad = [a for a in kw if dict(before[1]).get(a) != freeze(kw[a])]
            rep("argument-changed-%s" % c["entry"], bad)
        if rec["faults"]:
            if pid == "P17":
                what = "+".join(sorted(rec["faults"]))
                if ob.err is None:
                    rep("accepted-%s" % what if len(rec["faults"]) == 1 else "accepted", what)
                elif not isinstance(ob.err, ok):
                    rep("raises-%s" % type(ob.err).__name__, (what, ob.tb))
                if ob.seen or ob.evals:
                    rep("ran-before-refusing", what)
            continue
        if ob.err is not None and runs:
            rep("%s-raises" % c["entry"], ob.tb)
            continue
        if ob.opt is None:
            rep("no-optimizer", ob.tb)
            continue
        if pid == "P17":
            for key, d in judge_config(rec, ob):
                rep(key, d)
            continue
        if not runs:
            continue
        # P18: the same as what the general function does with the corresponding arguments
        cc = dict(rec["canon"])
        kw2 = call_args(cc, dynk, rng("config-sys", k), canon=r)
        if r["fid"] == "FidCompUnitary":
            kw2.setdefault("fid_params", {}).setdefault("phase_option", "PSU")
        elif c["entry"] in ("unitary", "crabunit"):
            pass
        if r["alg"] == "CRAB" and r["pulse"] == "none":
            kw2.pop("init_pulse_params", None)
        ob2 = Obs(cc, kw2, seed)
        if ob2.err is not None:
            rep("general-raises", ob2.tb)
            continue
        a, b = ob.config(), ob2.config()
        if r["alg"] == "CRAB" and c["pulse"] in ("-", "DEF", "def", "None"):
            for d in (a, b):
                d.pop("pulse.guess_pulse_action", None)
        for key, x, y in differ(a, b):
            if key == "method" and str(x).lower() == str(y).lower():
                continue
            if key in ("method", "phase") and (x is None or y is None or key == "method" and r["optimizer"] not in ("Optimizer", "OptimizerCrab")):
                continue
            rep("%s-%s" % (c["entry"], key), "%r, general function %r" % (x, y))
        for key, x, y in differ(ob.outcome(), ob2.outcome()):
            if key.endswith(".method") and str(x).lower() == str(y).lower():
                continue
            rep("%s-%s" % (c["entry"], key), "%r, general function %r" % (x, y))
    return len(recs), dev


FIELDS = ["alg", "method", "via", "dyn", "prop", "fid", "pulse", "ramp", "timing", "oper", "targ", "iters", "wall", "mingrad", "calls",
          "maxcor", "accur", "mopt", "phase", "scale", "scaling", "offset", "action", "ncoef", "cscale", "freq", "crabp", "dynp",
          "propp", "fidp", "optp", "tslotp", "pulsep", "rampp", "lb", "ub", "stats", "log", "amode", "gens"]


def run(pid):
    import itertools
    thorough = TIER == "thorough"
    import_repo()
    ck = Check(pid)
    pairs = [set(p) for p in itertools.combinations(FIELDS, 2)]
    core = [{"alg", "method", "via"}, {"alg", "dyn", "prop", "fid"}, {"alg", "pulse", "scaling", "offset"}, {"alg", "pulse", "action", "ramp"},
            {"alg", "ncoef", "cscale", "freq"}, {"dyn", "fid", "phase", "scale"}]
    inv = ["TypeOK", "DictWins", "CaseBlind", "AlgFits", "CanonOk"]
    recs = []
    for what, sets, n in (("every pair of options", pairs, 30000 if thorough else 5000), ("options that act together", core, 20000 if thorough else 2500)):
        s = run_tlc("Config", dict(Varied=sets_of(sets), Mode="combine"), invariants=inv, emit="Emit", workers=8)
        ck.tlc(s, "Config, " + what)
        E = sorted(s.emitted, key=lambda x: json.dumps(x["c"], sort_keys=True))
        ck.count("calls of the specification", len(E))
        recs += rng(pid, what).sample(E, min(n, len(E)))
    s = run_tlc("Config", dict(Varied=set(), Mode="random"), invariants=inv, emit="Emit", simulate=30000 if thorough else 3000, depth=60, workers=1)
    ck.tlc(s, "Config, all options at once (simulated)")
    recs += s.emitted[:30000 if thorough else 3000]
    ck.count("rejected calls", sum(1 for x in recs if x["faults"]))
    ck.sample({"call": {k: v for k, v in recs[-1]["c"].items() if v != "-"}, "configured": recs[-1]["res"]})
    for n, dev in pmap(_work, [(pid, recs[k:k + 100], k) for k in range(0, len(recs), 100)], chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    ck.assumptions += ["the minimiser is replaced by one that only looks at what it is given",
                       "CRAB with a gradient method and TRACEDIFF asked for together with APPROX are left open"]
    return ck


def sets_of(sets):
    return Raw("{" + ", ".join("{" + ", ".join('"%s"' % f for f in sorted(s)) + "}" for s in sets) + "}")
