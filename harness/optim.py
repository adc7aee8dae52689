"""Replays behaviours of spec/Optim.tla on real optimiser objects.

The minimiser is replaced by a scripted one that performs the callbacks of the
behaviour, the clock by a fake one; everything handed to the minimiser, handed
back by the callbacks, stored in results, statistics and in-memory records is
compared with what the specification says."""
import inspect, timeit, time, sys
import numpy as np
from common import *
import evo
from evo import close, full

REASON = {"goal": "Goal achieved", "calls": "Number of fidelity error calls has exceeded the maximum",
          "wall": "Max wall time exceeded", "grad": "Gradient normal minimum reached",
          "ret-gradmin": "Gradient normal minimum reached", "ret-maxiter": "Iteration count limit reached",
          "ret-precision": "Gradient and/or function calls not changing",
          "ret-converged": "function converged",
          "ret-limit": "Iteration or fidelity function call limit reached",
          "ret-task": "ABNORMAL_TERMINATION_IN_LNSRCH",
          "ret-tolerance": "Function converged (within tolerance)",
          "ret-maxfun": "Maximum number of function evaluations reached",
          "ret-maxiter-f": "Maximum number of iterations reached",
          "ret-message": "message %d of the minimiser"}
FLAGS = ["goal_achieved", "max_fid_func_exceeded", "grad_norm_min_reached", "wall_time_limit_exceeded",
         "max_iter_exceeded"]
TASK = {0: "CONVERGENCE: NORM OF PROJECTED GRADIENT <= PGTOL", 10: "CONVERGENCE: RELATIVE REDUCTION OF F <= FACTR*EPSMCH",
        1: "STOP: TOTAL NO. OF ITERATIONS REACHED LIMIT", 2: REASON["ret-task"]}

CLS = {"MIN": "OptimizerMin", "BFGS": "fmin_bfgs", "LBFGSB": "fmin_l_bfgs_b", "CRAB": "CRAB", "FMIN": "FMIN"}


class Abort(BaseException):
    pass


class OProblem:
    """A concrete control problem for one optimiser class."""

    def __init__(self, tag, cls, kind="UNIT", fid="DEF", fid_params=None, prop="DEF", N=2, states=False,
                 approx=False, method="Nelder-Mead", dyn_params=None, equal=True, nslots=3, nc=2, dims=None, free=False, slots=False):
        self.tag, self.cls, self.kind, self.fid, self.fid_params = tag, cls, kind, fid, fid_params
        self.prop, self.N, self.states, self.approx, self.method = prop, N, states, approx, method
        self.dyn_params, self.equal, self.n, self.nc = dyn_params, equal, nslots, nc
        # composite space; CRAB frequencies free; generators given per slot
        self.dims, self.free, self.slots = dims, free, slots
        self.crab = cls in ("CRAB", "FMIN")
        r = np.random.RandomState(np_seed("oproblem", tag))
        # amplitude ids
        if self.crab:
            ids = [[[100 * i + 10 * k + j + 11 for j in range(nc)] for k in range(nslots)] for i in range(4)]
        else:
            base = r.randint(1, 30, (4, nslots, nc))
            ids = []
            for i in range(4):
                p = [[int(x) for x in row] for row in base[i]]
                ids.append(p)
            # pulse 2 differs from pulse 1 in a single amplitude, pulse 3 shares a slot with it
            ids[1] = [list(row) for row in ids[0]]
            ids[1][nslots - 1][nc - 1] = 40
            ids[2][0] = list(ids[0][0])
        self.ids = ids
        vals = np.round(r.uniform(-2.0, 2.0, 41), 5)
        self.amps = [np.array([[vals[a % 41] for a in row] for row in p]) for p in ids]
        self.ncoef = 2
        self.per = self.ncoef * (3 if free else 2)
        self.coefs = [r.uniform(-1, 1, nc * self.per) for _ in range(4)]
        self.freqs = [r.uniform(0.5, 3, self.ncoef) for _ in range(nc)]
        M = lambda: r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
        H = lambda: (lambda m: (m + m.conj().T) / 2)(M())
        if kind == "UNIT":
            self.drift, self.ctrls = H(), [H() for _ in range(nc)]
            qr = lambda: np.linalg.qr(M())[0]
            self.ini, self.tgt = qr(), qr()
        elif kind == "SYMPL":
            S = lambda: (lambda m: (m + m.T) / 2)(r.normal(size=(N, N)))
            self.drift, self.ctrls = S(), [S() for _ in range(nc)]
            self.ini = np.eye(N)
            self.tgt = evo.expm_ref(0.4 * evo.omega_ref(N // 2) @ S()).real
        else:
            self.drift, self.ctrls = 0.5 * M(), [0.5 * M() for _ in range(nc)]
            self.ini, self.tgt = np.eye(N), np.eye(N) + 0.3 * M()
        if states:
            v = lambda: (lambda x: x / np.linalg.norm(x))(r.normal(size=(N, 1)) + 1j * r.normal(size=(N, 1)))
            self.ini, self.tgt = v(), v()
        self.tau = np.full(nslots, 0.4) if equal else np.round(r.uniform(0.2, 0.6, nslots), 4)
        self.fidkind = "approx" if fid == "TDAPPROX" else ("unit" if fid == "UNIT" or (fid == "DEF" and kind == "UNIT") else "trace")
        self.usegrad = not (self.crab or approx)

    def build(self, stats=True, log_level=None, dtype=None):
        from qutip_qtrl import pulseoptim as po
        from qutip import Qobj
        kw = dict(tau=np.array(self.tau)) if not self.equal else dict(num_tslots=self.n, evo_time=0.4 * self.n)
        dp = dict(self.dyn_params or {})
        if dtype == "Qobj":
            dp["oper_dtype"] = Qobj
        elif dtype == "ndarray":
            dp["oper_dtype"] = np.ndarray
        if log_level is not None:
            kw["log_level"] = log_level
        method = {"MIN": self.method, "BFGS": "fmin_bfgs", "LBFGSB": "fmin_l_bfgs_b",
                  "CRAB": self.method, "FMIN": "fmin"}[self.cls]
        mp = {"approx_grad": True} if self.approx else None
        Q = lambda M: evo.q(M, dims=self.dims)
        drift, ctrls = Q(self.drift), [Q(c) for c in self.ctrls]
        if self.slots:
            drift = [drift] * self.n
            cs, ctrls = ctrls, np.empty((self.n, self.nc), dtype=object)
            for k in range(self.n):
                ctrls[k, :] = cs
        ap = {"num_coeffs": self.ncoef, "fix_frequency": not self.free}
        opt = po.create_pulse_optimizer(
            drift, ctrls, Q(self.ini), Q(self.tgt),
            alg="CRAB" if self.crab else "GRAPE", alg_params=ap if self.crab else None,
            optim_method=method, method_params=mp, dyn_type=self.kind, dyn_params=dp or None,
            prop_type=self.prop, fid_type=self.fid, fid_params=dict(self.fid_params or {}) or None,
            init_pulse_type="DEF" if self.crab else "ZERO", gen_stats=stats, **kw)
        if self.crab:
            for j, g in enumerate(opt.pulse_generator):
                g.init_pulse()
                g.freqs = np.array(self.freqs[j])
        return opt

    def set_pulse(self, opt, i, how):
        """Make pulse i the current one of the system."""
        if self.crab:
            a = self._crab_amps(opt, i)
        else:
            a = np.array(self.amps[i - 1])
        if how == "init":
            opt.dynamics.initialize_controls(a)
        else:
            opt.dynamics.update_ctrl_amps(a)
        return a

    def _crab_amps(self, opt, i):
        a = np.empty((self.n, self.nc))
        m = self.per
        for j, g in enumerate(opt.pulse_generator):
            g.set_optim_var_vals(np.array(self.coefs[i - 1][j * m:(j + 1) * m]))
            a[:, j] = g.gen_pulse()
        return a

    def x(self, i):
        return np.array(self.coefs[i - 1]) if self.crab else self.amps[i - 1].ravel().copy()

    def probe(self):
        """Values of every pulse, each from a fresh system (per operator representation,
        as limits that equal a value have to equal it to the last bit)."""
        self.vals = {}
        for dt in (None, "ndarray", "Qobj"):
            self._probe(dt)
            self.vals[dt] = (self.val, self.errs, self.gs, self.erank, self.grank)
        assert len(set(repr(v[3:]) for v in self.vals.values())) == 1

    def use(self, dt):
        self.val, self.errs, self.gs = self.vals[dt][:3]

    def _probe(self, dt):
        out = []
        for i in range(1, 5):
            opt = self.build(stats=False, dtype=dt)
            a = self.set_pulse(opt, i, "init")
            fc = opt.dynamics.fid_computer
            # equal durations are held in single precision
            if not close(opt.dynamics.tau, self.tau, 1e-6):
                raise RuntimeError("tau is %s" % opt.dynamics.tau)
            self.rtau = np.array(opt.dynamics.tau, dtype=float)
            e = fc.get_fid_err()
            f = fc.get_fidelity() if hasattr(fc, "get_fidelity") else None
            ev = full(opt.dynamics.full_evo).copy()
            g = gn = None
            if self.usegrad:
                g = np.array(fc.get_fid_err_gradient())
                gn = fc.grad_norm
            out.append(dict(amps=np.array(a), err=e, fid=f, evo=ev, grad=g, gn=gn))
        self.val = out
        self.reference_check()
        errs = sorted(v["err"] for v in out)
        self.errs = errs
        self.erank = [2 * (errs.index(v["err"]) + 1) for v in out]
        if self.usegrad:
            gs = sorted(v["gn"] for v in out)
            self.gs = gs
            self.grank = [2 * (gs.index(v["gn"]) + 1) for v in out]
        else:
            self.gs, self.grank = [1.0, 2.0, 3.0, 4.0], [2, 4, 6, 8]
        assert len(set(self.erank)) == 4 and len(set(self.grank)) == 4, (self.tag, errs)

    def reference_check(self):
        """The probed evolution against an independent exponential."""
        self.refdev = None
        for v in self.val:
            X = np.asarray(self.ini, dtype=complex)
            for k in range(self.n):
                A = self.drift + sum(v["amps"][k, j] * self.ctrls[j] for j in range(self.nc))
                if self.kind == "UNIT":
                    A = -1j * A
                elif self.kind == "SYMPL":
                    A = A @ (-evo.omega_ref(self.N // 2))
                X = evo.expm_ref(A * self.rtau[k]) @ X
            if not close(v["evo"], X):
                self.refdev = "evolution"
            T = self.tgt
            if self.fidkind == "unit":
                ov = np.trace(T.conj().T @ X) / np.trace(T.conj().T @ T).real
                f = ov.real if (self.fid_params or {}).get("phase_option") == "SU" else abs(ov)
                want = abs(1 - f)
            else:
                s = (self.fid_params or {}).get("scale_factor", 1.0 / (2 * self.N))
                D = T - X
                want = s * np.trace(D.conj().T @ D).real
            if not close(v["err"], want):
                self.refdev = "error"

    @staticmethod
    def rankval(r, vals):
        """Value of a limit of rank r among sorted vals (even rank 2k: vals[k-1])."""
        if r <= 0:
            return 0.0
        if r % 2 == 0:
            return vals[r // 2 - 1]
        k = r // 2
        lo = vals[k - 1] if k >= 1 else 0.0
        hi = vals[k] if k < len(vals) else vals[-1] * 2 + 1
        return (lo + hi) / 2


def bounds_of(kind, n, nc):
    """(how to ask for them, what must reach the minimiser)"""
    if kind == "none":
        return dict(lb=None, ub=None, ex=None), [(None, None)] * (n * nc)
    if kind == "scalar":
        return dict(lb=-6.5, ub=7.0, ex=None), [(-6.5, 7.0)] * (n * nc)
    if kind == "list":
        L, U = [-6.0 - j for j in range(nc)], [5.0 + j for j in range(nc)]
        L[0] = -np.inf
        if nc > 1:
            U[-1] = np.inf
        return dict(lb=L, ub=U, ex=None), [(None if np.isinf(L[j]) else L[j], None if np.isinf(U[j]) else U[j])
                                          for _ in range(n) for j in range(nc)]
    if kind == "zero":
        return dict(lb=0, ub=9.0, ex=None), [(0, 9.0)] * (n * nc)
    if kind == "lower":
        return dict(lb=-9.5, ub=None, ex=None), [(-9.5, None)] * (n * nc)
    if kind == "explicit":
        E = [(-5.0 - m, 6.0 + m) for m in range(n * nc)]
        return dict(lb=-1.0, ub=1.0, ex=E), list(E)
    raise KeyError(kind)


class Clock:
    def __init__(self):
        self.t = 1000.0

    def __call__(self):
        return self.t


class Patch:
    """Substitute functions wherever the package (or scipy / timeit) holds them."""

    def __init__(self, subs):
        self.subs, self.undo = subs, []

    def __enter__(self):
        mods = [m for k, m in list(sys.modules.items()) if m is not None and
                (k.startswith("qutip_qtrl") or k in ("scipy.optimize", "timeit", "time"))]
        for m in mods:
            for a, v in list(vars(m).items()):
                for orig, new in self.subs:
                    if v is orig:
                        self.undo.append((m, a, v))
                        setattr(m, a, new)
        return self

    def __exit__(self, *a):
        for m, n, v in self.undo:
            setattr(m, n, v)


class ORun:
    """Runs one behaviour; report(property, key, detail)."""

    def __init__(self, prob, rec, report, settings, stats=True, log_level=None, dtype=None, variant=0):
        self.p, self.h, self.res, self.rec, self.fst = prob, rec["h"], rec["res"], rec["rec"], rec["st"]
        self._rep, self.S = report, settings
        self.stats, self.log_level, self.dtype, self.variant = stats, log_level, dtype, variant
        prob.use(dtype)
        self.runno = 0
        self.r1keys = set()

    def report(self, prop, key, detail=""):
        if self.runno <= 1:
            self.r1keys.add((prop, key))
        self._rep(prop, key, "run %d: %s" % (self.runno, detail))
        if self.runno >= 2 and prop in ("P06", "P07", "P12", "P10") and (prop, key) not in self.r1keys:
            self._rep("P08", key + "-later-run", "run %d: %s" % (self.runno, detail))

    def both(self, key, detail=""):
        for p in ("P06", "P07", "P08", "P10", "P12"):
            self._rep(p, key, detail)

    # ------------------------------------------------------------------
    def run(self):
        import scipy.optimize as so
        self.clock = Clock()
        fakes = {}
        subs = []
        for n in ("minimize", "fmin_bfgs", "fmin_l_bfgs_b", "fmin"):
            orig = getattr(so, n)
            subs.append((orig, self._fake(n, orig)))
        subs += [(timeit.default_timer, self.clock)]
        with Patch(subs):
            self._run()

    def _run(self):
        p = self.p
        try:
            self.opt = p.build(self.stats, self.log_level, self.dtype)
            p.set_pulse(self.opt, self.h[0]["i"], "init")
            lv = self.h[0]["lvl"]
            if lv != "NONE":
                self.opt.dumping = lv
        except Exception:
            self.both("create-raises", short_tb())
            return
        self.results = []
        self.snaps = []
        self.pos = 1
        while self.pos < len(self.h):
            o = self.h[self.pos]
            self.pos += 1
            try:
                if o["op"] == "start":
                    if not self._start(o):
                        return
                elif o["op"] in ("reset", "reinit"):
                    p.set_pulse(self.opt, o["i"], "init" if o["op"] == "reinit" else "upd")
                elif o["op"] == "use":
                    a = p.set_pulse(self.opt, o["i"], "upd")
                    self.opt.dynamics.fid_computer.get_fid_err()
                    self.opt.dynamics.full_evo
                    a[...] = -77.0
                elif o["op"] == "set":
                    pass
            except Exception:
                self.both(o["op"] + "-raises", short_tb())
                return
            self._immutable(o)
        self._records()

    # ---- one run
    def _settings(self, s):
        st = self.S[s - 1]
        p = self.p
        d = dict(fid_err_targ=p.rankval(st["targ"], p.errs), min_gradient_norm=p.rankval(st["mingrad"], p.gs),
                 max_wall_time=float(st["wall"]), max_fid_func_calls=st["calls"], max_iterations=st["iters"])
        how, want = bounds_of(st["bounds"], p.n, p.nc)
        return d, how, want

    def _start(self, o):
        from qutip_qtrl import termcond
        self.runno += 1
        opt, p = self.opt, self.p
        d, how, want = self._settings(o["s"])
        opt.amp_lbound, opt.amp_ubound, opt.bounds = how["lb"], how["ub"], None if p.crab else how["ex"]
        tc = None
        if (self.runno + self.variant) % 2 == 0:
            tc = termcond.TerminationConditions()
        if self.variant < 2:
            for k, v in d.items():
                setattr(tc or opt.termination_conditions, k, v)
        if tc is not None:
            tc.fid_goal = None
        else:
            opt.termination_conditions.fid_goal = None
        # the target may be given as a fidelity instead, where that is not the very value of a pulse
        if self.variant < 2 and (self.runno + len(self.h)) % 3 == 0 and (self.S[o["s"] - 1]["targ"] % 2 or d["fid_err_targ"] == 0):
            t = tc or opt.termination_conditions
            t.fid_err_targ, t.fid_goal = None, 1 - d["fid_err_targ"]
        self.limits, self.want_bounds = d, want
        self._options(opt, d)
        self.disp = (self.runno + len(self.h) + self.variant) % 4 == 1
        self.steps = (self.runno + len(self.h)) % 2 == 1
        opt.disp_conv_msg, opt.record_iteration_steps = self.disp, self.steps
        self.called = 0
        # events of this run
        self.events = []
        k = self.pos
        while True:
            e = self.h[k]
            self.events.append(e)
            k += 1
            if e["fin"]:
                break
        self.pos = k
        self.ei = 0
        self.x0i = o["i"]
        self.bad, self.returned = False, None
        spec = self.res[self.runno - 1]
        try:
            r = opt.run_optimization(tc) if tc is not None else opt.run_optimization()
        except Abort:
            return False
        except Exception:
            self.both("run-raises", short_tb())
            return False
        if self.bad:
            return False
        if not self.called:
            # no known minimiser entry point was used: the script cannot drive it
            raise RuntimeError("the optimiser called none of the scripted minimisers")
        # iterates kept are those of this run
        got, w = opt.iteration_steps, self.returned if p.cls == "FMIN" and self.steps else None
        if (got is None) != (w is None) or (w is not None and not (len(got) == len(w) and all(close(a, b, 1e-13) for a, b in zip(got, w)))):
            self.report("P08", "iteration-steps", "%s, want %s" % (got, w))
        if self.ei < len(self.events):
            self.report("P06", "stopped-early", "after event %d of %s reason %s" % (
                self.ei, [e["op"] for e in self.events], r.termination_reason))
            return False
        self._result(r, spec, o)
        self.results.append(r)
        self.snaps.append(self._snap(r))
        return True

    def _options(self, opt, d):
        """Options of the method: given anew for some runs, left as they are for others."""
        p = self.p
        if self.runno > 1 and (self.runno + self.variant) % 3 == 0 and self.variant < 2:
            return
        mp = {"approx_grad": True} if p.approx else {}
        if self.variant == 2:
            # limits given as parameters of the method
            mp.update(d)
        self.mopts = {}
        corr, acc = [("max_metric_corr", "accuracy_factor"), ("maxcor", "ftol"), ("max_metric_corr", "ftol")][(len(self.h) + self.variant) % 3]
        if p.cls in ("MIN", "CRAB"):
            mp["xtra"] = self.mopts["xtra"] = 100 + self.runno
            if p.cls == "MIN":
                mp[corr] = self.mopts["maxcor"] = 20 + self.runno
                mp[acc] = self.mopts["ftol"] = 1e-7 * self.runno
        elif p.cls == "FMIN":
            mp["xtol"] = self.mopts["xtol"] = 1e-3 * self.runno
            mp["ftol"] = self.mopts["ftol"] = 2e-5 * self.runno
        elif p.cls == "LBFGSB":
            mp[corr] = self.mopts["m"] = 3 + self.runno
            mp[acc] = self.mopts["factr"] = 1e3 * self.runno
        opt.method_params = mp

    def _fake(self, name, orig):
        sig = inspect.signature(orig)

        def fake(*args, **kw):
            try:
                return self._script(name, dict(sig.bind(*args, **kw).arguments))
            except Abort:
                self.bad = True
                raise
        return fake

    def _script(self, name, a):
        p = self.p
        self.called += 1
        want = {"MIN": "minimize", "CRAB": "minimize", "BFGS": "fmin_bfgs", "LBFGSB": "fmin_l_bfgs_b", "FMIN": "fmin"}[p.cls]
        opts = dict(a.get("options") or {})
        if name == "minimize":
            fun, x0, jac = a["fun"], a["x0"], a.get("jac")
            if a.get("method") != p.method:
                self.report("P08", "method", "%r" % (a.get("method"),))
        else:
            fun, x0, jac = a["f" if name != "fmin_l_bfgs_b" and "f" in a else "func"], a["x0"], a.get("fprime")
        if name != want:
            self.report("P06", "minimiser", "%s instead of %s" % (name, want))
        cb = a.get("callback")
        self._args(name, a, opts, x0, jac)
        buf = np.array(p.x(self.x0i), dtype=float)
        nit = 0
        for e in self.events:
            if e["op"] == "tick":
                self.clock.t += e["i"]
                self.ei += 1
                continue
            if e["op"] == "ret":
                self.ei += 1
                break
            self.ei += 1
            try:
                if e["op"] == "F":
                    buf[...] = p.x(e["i"])
                    v = fun(buf)
                    if not close(v, p.val[e["i"] - 1]["err"], 1e-10):
                        self.report("P07", "value-returned", "pulse %d: %r, error is %r" % (e["i"], v, p.val[e["i"] - 1]["err"]))
                    buf[...] = -5.5
                elif e["op"] == "G":
                    buf[...] = p.x(e["i"])
                    if jac is None:
                        self.report("P06", "no-gradient", "")
                        raise Abort()
                    v = jac(buf)
                    w = p.val[e["i"] - 1]["grad"].ravel()
                    if np.shape(v) != w.shape or not close(v, w, 1e-8):
                        self.report("P07", "gradient-returned", "pulse %d: %s, gradient is %s" % (e["i"], v, w))
                    buf[...] = -5.5
                elif e["op"] == "CB":
                    nit += 1
                    cb(np.array(p.x(self.x0i)))
            except Abort:
                raise
            except Exception as ex:
                if not e["fin"]:
                    if not hasattr(ex, "reason"):
                        self.both("callback-raises", short_tb())
                        raise Abort()
                raise
            if e["fin"]:
                self.report("P06", "did-not-stop", "event %d of %s (limits %s)" % (
                    self.ei, [(x["op"], x["i"]) for x in self.events], self.limits))
                raise Abort()
        x = np.array(p.x(e["i"]), dtype=float)
        self.returned = [x.copy()]
        fx, w = p.val[e["i"] - 1]["err"], e["w"]
        if name == "minimize":
            import scipy.optimize as so
            return so.OptimizeResult(x=x, fun=fx, nit=nit, nfev=nit, status=w, success=(w == 0),
                                     message=REASON["ret-message"] % w)
        if name == "fmin_bfgs":
            return x, fx, np.zeros_like(x), np.eye(len(x)), 7, 7, w
        if name == "fmin_l_bfgs_b":
            return x, fx, {"warnflag": 0 if w == 10 else w, "task": TASK[w], "nit": nit, "funcalls": 7,
                           "grad": np.zeros_like(x)}
        out = (x, fx, nit, 7, w)
        return out + ([x],) if a.get("retall") else out

    def _args(self, name, a, opts, x0, jac):
        p, L = self.p, self.limits
        R = lambda k, d: self.report("P08", "passed-" + k, d)
        if not close(np.ravel(x0), p.x(self.x0i), 1e-13):
            self.report("P07", "starting-point", "%s instead of %s" % (np.ravel(x0), p.x(self.x0i)))
        if p.usegrad and jac is None:
            self.report("P06", "no-gradient-passed", "")
        if not p.usegrad and jac is not None:
            self.report("P06", "gradient-passed", "")
        lim = {}
        if name == "minimize":
            lim = {"maxiter": L["max_iterations"], "maxfev": L["max_fid_func_calls"]}
            if L["min_gradient_norm"] > 0:
                lim["gtol"] = L["min_gradient_norm"]
            got = opts
        else:
            got = a
            lim = {"maxiter": L["max_iterations"]}
            if name in ("fmin_l_bfgs_b", "fmin"):
                lim["maxfun"] = L["max_fid_func_calls"]
            if name == "fmin_bfgs":
                lim["gtol"] = L["min_gradient_norm"]
            if name == "fmin_l_bfgs_b":
                lim["pgtol"] = L["min_gradient_norm"]
        lim.update(self.mopts)
        if name in ("minimize", "fmin"):
            lim["disp"] = self.disp
        if name == "fmin":
            lim["retall"] = self.steps
        for k, v in lim.items():
            if got.get(k) != v:
                R(k, "%r instead of %r" % (got.get(k), v))
        if p.cls in ("MIN", "LBFGSB"):
            b = a.get("bounds")
            norm = None
            try:
                f = lambda v, s: None if v is None or np.isinf(v) else float(v)
                norm = [(f(l, 0), f(u, 1)) for l, u in b] if b is not None else [(None, None)] * (p.n * p.nc)
            except Exception:
                pass
            if norm != [(None if l is None else float(l), None if u is None else float(u)) for l, u in self.want_bounds]:
                R("bounds", "%s instead of %s" % (b, self.want_bounds))
                self.report("P09", "bounds-passed", "%s instead of %s" % (b, self.want_bounds))
        elif p.crab and a.get("bounds") is not None:
            R("bounds", "bounds on CRAB coefficients")

    # ---- the result
    def _result(self, r, s, o):
        p, opt = self.p, self.opt
        dyn = opt.dynamics
        rep = self.report
        if s["why"] == "ret-message":
            want = REASON["ret-message"] % self.events[-1]["w"]
        else:
            want = REASON[s["why"]]
        if r.termination_reason != want:
            rep("P06", "reason-" + s["why"], "%r" % (r.termination_reason,))
        for f in FLAGS:
            if bool(getattr(r, f)) != (f in s["flags"]) and s["why"] != "ret-message":
                rep("P06", "flag-%s-%s" % (f, s["why"]), "is %r" % getattr(r, f))
        v, v0 = p.val[s["pulse"] - 1], p.val[s["init"] - 1]
        A = lambda ok, key, d="": ok or rep("P07", key, d)
        try:
            A(np.shape(r.final_amps) == v["amps"].shape and close(r.final_amps, v["amps"], 1e-12), "final_amps", "%s want %s" % (r.final_amps, v["amps"]))
            A(close(r.fid_err, v["err"], 1e-9), "fid_err", "%r want %r" % (r.fid_err, v["err"]))
            if v["fid"] is not None:
                A(close(r.fidelity, v["fid"], 1e-9), "fidelity", "%r want %r" % (r.fidelity, v["fid"]))
            A(close(full(r.evo_full_final), v["evo"]), "evo_full_final")
            for nm in ("evo_full_final", "evo_full_initial"):
                D = p.dims or [[p.N], [p.N]]
                D = [D[0], [1]] if p.states else D
                A(getattr(getattr(r, nm), "dims", D) == D, nm + "-dims")
            A(close(r.initial_amps, v0["amps"], 1e-12), "initial_amps")
            A(close(r.initial_fid_err, v0["err"], 1e-9), "initial_fid_err", "%r want %r" % (r.initial_fid_err, v0["err"]))
            A(close(full(r.evo_full_initial), v0["evo"]), "evo_full_initial")
            A(close(r.time, np.concatenate([[0], np.cumsum(p.tau)]), 1e-6), "time", str(r.time))
            A(r.num_iter == s["nI"], "num_iter", "%r want %r" % (r.num_iter, s["nI"]))
            A(r.num_fid_func_calls == s["nF"], "num_fid_func_calls", "%r want %r" % (r.num_fid_func_calls, s["nF"]))
            A(close(r.wall_time, s["wall"], 1e-12), "wall_time", "%r want %r" % (r.wall_time, s["wall"]))
            A(r.optimizer is opt, "optimizer")
            if s["why"] == "grad":
                A(close(r.grad_norm_final, v["gn"], 1e-8), "grad_norm_final", "%r want %r" % (r.grad_norm_final, v["gn"]))
            # the system itself is left with that pulse
            A(close(dyn.ctrl_amps, v["amps"], 1e-12), "state-ctrl_amps")
            if p.crab:
                got = np.concatenate([np.ravel(g.get_optim_var_vals()) for g in opt.pulse_generator])
                A(close(got, p.x(s["pulse"]), 1e-13), "state-coefficients", "%s want %s" % (got, p.x(s["pulse"])))
                am = np.column_stack([g.gen_pulse() for g in opt.pulse_generator])
                A(close(am, v["amps"], 1e-12), "state-pulse-generators")
            sd = (self.opt.stats is not None) and {k: getattr(self.opt.stats, a) for k, a in evo.STAT.items()}
            A(close(dyn.fid_computer.get_fid_err(), v["err"], 1e-9), "state-fid_err")
            A(close(full(dyn.full_evo), v["evo"]), "state-full_evo")
            if sd:
                for k, a in evo.STAT.items():
                    if getattr(self.opt.stats, a) != sd[k]:
                        rep("P12", "recomputed-after-run-" + a, "")
        except Exception:
            rep("P07", "result-raises", short_tb())
        if self.stats:
            self._stats(r, s)

    def _stats(self, r, s):
        st = r.stats
        rep = lambda k, d: self.report("P12", k, d)
        if st is None:
            rep("stats-missing", "")
            return
        st_want = dict((a, s["st"][k]) for k, a in evo.STAT.items())
        st_want.update(num_fidelity_func_calls=s["nF"], num_grad_func_calls=s["nG"], num_iter=s["nI"],
                       wall_time_optim=s["wall"], wall_time_optim_start=1000.0 + s["t0"],
                       wall_time_optim_end=1000.0 + s["t0"] + s["wall"])
        div = lambda a, b: (a / b) if b else float("nan")
        st_want["mean_num_ctrl_amp_updates_per_iter"] = div(s["st"]["upd"], s["nI"])
        st_want["mean_num_timeslot_changes_per_update"] = div(s["st"]["slots"], s["st"]["upd"])
        st_want["mean_num_ctrl_amp_changes_per_update"] = div(s["st"]["chg"], s["st"]["upd"])
        for k, w in st_want.items():
            g = getattr(st, k)
            if not (np.isnan(w) and np.isnan(g)) and not (abs(g - w) <= 1e-9 * (1 + abs(w))):
                rep("run-stats-" + k, "%r want %r" % (g, w))

    def _snap(self, r):
        c = lambda x: None if x is None else np.array(full(x))
        d = {k: c(getattr(r, k)) for k in ("final_amps", "initial_amps", "evo_full_final", "evo_full_initial", "time")}
        for k in ("fid_err", "fidelity", "initial_fid_err", "num_iter", "num_fid_func_calls", "wall_time",
                  "termination_reason", "grad_norm_final") + tuple(FLAGS):
            d[k] = getattr(r, k)
        if r.stats is not None:
            for k in list(evo.STAT.values()) + ["num_iter", "num_fidelity_func_calls", "num_grad_func_calls"]:
                d["stats." + k] = getattr(r.stats, k)
        return d

    def _immutable(self, o):
        for k, (r, s) in enumerate(zip(self.results, self.snaps)):
            now = self._snap(r)
            for f in s:
                same = np.array_equal(s[f], now[f]) if isinstance(s[f], np.ndarray) else (
                    s[f] == now[f] or (s[f] != s[f] and now[f] != now[f]))
                if not same:
                    for pr in ("P07", "P08"):
                        self._rep(pr, "result-changed-" + f, "result of run %d after %s" % (k + 1, o["op"]))

    # ---- in-memory records
    def _records(self):
        lv = self.h[0]["lvl"]
        d = self.opt.dump
        rep = lambda k, x="": self.report("P10", k, x)
        if lv == "NONE":
            if d is not None or self.opt.iter_summary is not None or self.opt.dumping != "NONE":
                rep("recorded-without-asking")
            return
        try:
            if self.opt.dumping != lv or d.level != lv:
                rep("level", "%r" % self.opt.dumping)
            S = self.rec["sum"]
            if len(d.iter_summary) != len(S):
                rep("iter-summaries", "%d want %d" % (len(d.iter_summary), len(S)))
                return
            for x, s in zip(d.iter_summary, S):
                w = {"idx": s["idx"], "iter_num": s["nI"],
                     "fid_func_call_num": None if s["nF"] < 0 else s["nF"],
                     "grad_func_call_num": None if s["nG"] < 0 else s["nG"],
                     "fid_err": self.p.val[s["err"] - 1]["err"] if s["err"] else None,
                     "grad_norm": self.p.val[s["gn"] - 1]["gn"] if s["gn"] else None, "wall_time": float(s["wall"])}
                for k, v in w.items():
                    g = getattr(x, k)
                    if (g is None) != (v is None) or (v is not None and not close(g, v, 1e-9)):
                        rep("iter-summary-" + k, "%r want %r" % (g, v))
            E = [self.p.val[i - 1]["err"] for i in self.rec["err"]]
            if len(d.fid_err_log) != len(E) or not all(close(a, b, 1e-9) for a, b in zip(d.fid_err_log, E)):
                rep("fid_err_log", "%s want %s" % (d.fid_err_log, E))
            GN = [self.p.val[i - 1]["gn"] for i in self.rec["gn"]]
            if len(d.grad_norm_log) != len(GN) or not all(close(a, b, 1e-8) for a, b in zip(d.grad_norm_log, GN)):
                rep("grad_norm_log", "%s want %s" % (d.grad_norm_log, GN))
            GR = [self.p.val[i - 1]["grad"] for i in self.rec["gn"]]
            if len(d.grad_log) != len(GR) or not all(close(a, b, 1e-8) for a, b in zip(d.grad_log, GR)):
                rep("grad_log", "%d want %d" % (len(d.grad_log), len(GR)))
        except Exception:
            rep("records-raise", short_tb())


SETTINGS = [
    dict(targ=1, calls=3, mingrad=1, wall=3, iters=7, bounds="scalar"),
    dict(targ=4, calls=100, mingrad=4, wall=4, iters=9, bounds="explicit"),
    dict(targ=3, calls=1, mingrad=5, wall=100, iters=500, bounds="list"),
    dict(targ=0, calls=2, mingrad=0, wall=1, iters=3, bounds="lower"),
    dict(targ=2, calls=2, mingrad=3, wall=6, iters=11, bounds="none"),
    dict(targ=5, calls=4, mingrad=2, wall=0, iters=12, bounds="zero"),
]
WARNS = {"MIN": [0, 1], "CRAB": [0, 1], "BFGS": [0, 1, 2], "LBFGSB": [0, 1, 2, 10], "FMIN": [0, 1, 2]}


def oproblems():
    P = []
    add = lambda *a, **k: P.append(OProblem(*a, **k))
    add("lb1", "LBFGSB")
    add("lb2", "LBFGSB", kind="SYMPL", equal=False)
    add("lb3", "LBFGSB", kind="GEN_MAT", N=3, fid="TRACEDIFF", equal=False, nslots=2, nc=3)
    add("lb4", "LBFGSB", states=True, N=3, fid_params={"phase_option": "SU"}, nslots=4)
    add("lb5", "LBFGSB", fid="TRACEDIFF", approx=True, nslots=2)
    add("bf1", "BFGS", fid_params={"phase_option": "SU"}, nslots=2, equal=False)
    add("bf2", "BFGS", kind="GEN_MAT", states=True, N=2)
    add("bf3", "BFGS", kind="GEN_MAT", fid="TDAPPROX", prop="APPROX", nslots=2, nc=1)
    add("bf4", "BFGS", N=4, dims=[[2, 2], [2, 2]], nslots=2, slots=True)
    add("mi1", "MIN", method="L-BFGS-B")
    add("mi2", "MIN", method="Nelder-Mead", approx=True, kind="SYMPL")
    add("mi3", "MIN", method="BFGS", N=3, dyn_params={"memory_optimization": 1}, nslots=2)
    add("cr1", "CRAB", method="Nelder-Mead", prop="DEF")
    add("cr3", "CRAB", method="Nelder-Mead", free=True, N=4, dims=[[2, 2], [2, 2]], states=True, fid_params={"phase_option": "SU"})
    add("cr2", "CRAB", method="Powell", kind="GEN_MAT", nslots=4, equal=False, nc=1)
    add("fm1", "FMIN")
    add("fm2", "FMIN", kind="SYMPL", nslots=4, equal=False)
    add("fm4", "FMIN", free=True, kind="GEN_MAT", N=4, dims=[[[2], [2]], [[2], [2]]], nslots=2, slots=True)
    add("fm3", "FMIN", states=True, nc=1, fid="TRACEDIFF", prop="FRECHET")
    return P
