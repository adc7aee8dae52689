"""Runs of the real optimisers with the real minimisers, recorded call by call
and judged by TLC (spec/RunTrace.tla).  Used by P06, P07, P09 and P12."""
import timeit, warnings, os
import numpy as np
from common import *
import evo, optim
from evo import close, full

CAP = 2.0e9
E9 = lambda v: int(min(CAP, round(float(v) * 1e9))) if np.isfinite(v) else int(CAP)
E6 = lambda v: int(max(-CAP, min(CAP, round(float(v) * 1e6))))
METHODS = [("FMIN_L_BFGS_B", "LBFGSB", True), ("fmin_l_bfgs_b", "LBFGSB", True), ("LBFGSB", "LBFGSB", True),
           ("FMIN_BFGS", "BFGS", False), ("L-BFGS-B", "MIN", True), ("TNC", "MIN", True), ("SLSQP", "MIN", True),
           ("BFGS", "MIN", False), ("CG", "MIN", False), ("Nelder-Mead", "MIN", True), ("Powell", "MIN", True), ("DEF", "LBFGSB", True)]
CRABM = [("fmin", "FMIN"), ("DEF", "FMIN"), ("Nelder-Mead", "MIN"), ("Powell", "MIN"), ("COBYLA", "MIN")]
PULSES = ["RND", "LIN", "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "DEF"]
CODE = {optim.REASON["goal"]: "goal", optim.REASON["calls"]: "calls", optim.REASON["wall"]: "wall", optim.REASON["grad"]: "grad"}


def limit(q, side):
    v = q.choice([None, None, float("inf"), 0.0, 0.4, 1.0, 2.5])
    return v if v is None else side * v


def bounds(q, nc):
    def req():
        if q.random() < 0.5:
            a, b = limit(q, -1), limit(q, 1)
            return a, b, [(a, b)] * nc
        p = [(limit(q, -1), limit(q, 1)) for _ in range(nc)]
        if q.random() < 0.3:
            p = [(lo, None) for lo, _ in p]
            return [x[0] for x in p], None, p
        return [x[0] for x in p], [x[1] for x in p], p
    lo, up, per = req()
    if any(a == 0.0 and b == 0.0 for a, b in per):
        return bounds(q, nc)
    f = lambda v: (0, 0) if v is None or np.isinf(v) else (1, E6(v))
    # one control only between positive amplitudes
    return lo, up, [list(f(a) + f(b)) for a, b in per]


def system(r, kind, N, nc, states):
    M = lambda: r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
    if kind == "UNIT":
        H = lambda: (lambda m: (m + m.conj().T) / 2)(M())
        qr = lambda: np.linalg.qr(M())[0]
        s = H(), [H() for _ in range(nc)], np.eye(N, dtype=complex), qr()
    elif kind == "SYMPL":
        S = lambda: (lambda m: (m + m.T) / 2)(r.normal(size=(N, N)))
        s = S(), [S() for _ in range(nc)], np.eye(N), evo.expm_ref(0.4 * evo.omega_ref(N // 2) @ S()).real
    else:
        s = 0.4 * M(), [0.4 * M() for _ in range(nc)], np.eye(N), np.eye(N) + 0.3 * M()
    if states:
        v = lambda: (lambda x: x / np.linalg.norm(x))(r.normal(size=(N, 1)) + 1j * r.normal(size=(N, 1)))
        s = s[:2] + (v(), v())
    return s


def reference(kind, fid, sysm, amps, tau, N, sf):
    drift, ctrls, X, T = sysm
    X = np.asarray(X, dtype=complex)
    size = 0.0
    for k in range(len(tau)):
        A = drift + sum(amps[k, j] * ctrls[j] for j in range(len(ctrls)))
        if kind == "UNIT":
            A = -1j * A
        elif kind == "SYMPL":
            A = A @ (-evo.omega_ref(N // 2))
        X = evo.expm_ref(A * tau[k]) @ X
        size = max(size, np.max(np.abs(X)), 50 * np.max(np.abs(A * tau[k])))
    if fid in ("PSU", "SU"):
        ov = np.trace(T.conj().T @ X) / np.trace(T.conj().T @ T).real
        e = abs(1 - (ov.real if fid == "SU" else abs(ov)))
    else:
        D = T - X
        e = sf * np.trace(D.conj().T @ D).real
    return e, X, size


class Recorder:
    def __init__(self, q):
        self.q, self.ev, self.clock = q, [], optim.Clock()
        self.amps, self.index = [], {}

    def pulse(self, a):
        key = (np.ascontiguousarray(a, dtype=float) + 0.0).tobytes()      # -0.0 and 0.0 are one pulse
        if key not in self.index:
            self.amps.append(np.array(a, dtype=float))
            self.index[key] = len(self.amps)
        return self.index[key]

    def tick(self):
        if self.q.random() < 0.4:
            self.clock.t += self.q.choice([1, 1, 2])


def record(k):
    """One run; returns (trace record, description) or (None, problem)."""
    import scipy.optimize as so
    from qutip_qtrl import pulseoptim as po, optimizer
    q = rng("runs", k)
    r = np.random.RandomState(np_seed("runs", k))
    np.random.seed(np_seed("runs-global", k))
    rc = Recorder(q)
    crab = q.random() < 0.35
    method, cls, honours = (q.choice(CRABM) + (True,)) if crab else q.choice(METHODS)
    kind = q.choice(["UNIT", "UNIT", "UNIT", "GEN_MAT", "SYMPL"])
    states = kind == "UNIT" and q.random() < 0.25
    N = q.choice([2, 2, 4]) if kind == "SYMPL" else q.choice([2, 2, 3])
    nc, ns = q.choice([1, 2, 3]), q.choice([1, 2, 4, 6]) if not crab else q.choice([3, 5, 8])
    sysm = system(r, kind, N, nc, states)
    lo, up, per = bounds(q, nc)
    fid, fp, sf = "TRACEDIFF", {}, 1.0 / (2 * N)
    ft = "DEF"
    if kind == "UNIT":
        fid = q.choice(["PSU", "SU", "TRACEDIFF"])
        if fid == "TRACEDIFF":
            ft = "TRACEDIFF"
        else:
            fp["phase_option"] = fid
    if fid == "TRACEDIFF" and q.random() < 0.3:
        sf = fp["scale_factor"] = 0.8
    lim = dict(targ=q.choice([-1.0, -1.0, 1e-3, 0.05, 0.3, 0.7]), wall=q.choice([1, 4, 20, 200, 10**6]), iters=q.choice([1, 3, 8, 30]),
               mingrad=q.choice([0.0, 1e-6, 0.05, 0.4]), calls=q.choice([1, 3, 10, 40, 60]))
    tau = np.round(r.uniform(0.1, 0.5, ns), 4) if q.random() < 0.5 else None
    kw = dict(tau=tau) if tau is not None else dict(num_tslots=ns, evo_time=0.35 * ns)
    mp = {"max_fid_func_calls": lim["calls"]}
    approx = not crab and q.random() < 0.1 and cls != "LBFGSB"
    if approx:
        mp["approx_grad"] = True
    prop = q.choice(["DEF", "FRECHET"]) if crab else "DEF"
    if crab and kind != "UNIT":
        prop = "FRECHET"
    if crab and ft == "TRACEDIFF":
        prop = "FRECHET"
    if crab:
        kw.update(alg="CRAB", alg_params=dict(num_coeffs=q.choice([1, 2, 3]), init_coeff_scaling=q.choice([0.5, 1.0, 4.0]),
                                              fix_frequency=q.random() < 0.7))
        if q.random() < 0.5:
            kw.update(init_pulse_type=q.choice(PULSES[:12]), init_pulse_params={"pulse_action": q.choice(["MODULATE", "ADD"])})
        if q.random() < 0.4:
            kw.update(ramping_pulse_type="GAUSSIAN_EDGE", ramping_pulse_params={"decay_time": 0.1})
    else:
        kw.update(init_pulse_type=q.choice(PULSES))
    kw.update(pulse_scaling=q.choice([1.0, 0.2, 3.0]), pulse_offset=q.choice([0.0, 0.0, 0.7, -1.5]))
    stats = q.random() < 0.5
    optis = []
    real_init = optimizer.Optimizer.__init__

    def oinit(self, *a, **k):
        real_init(self, *a, **k)
        optis.append(self)
    warn = {"w": -1, "x": None, "msg": None}
    t0 = {}

    def wrap(name, orig):
        import inspect
        sig = inspect.signature(orig)

        def go(*args, **kws):
            b = sig.bind(*args, **kws)
            a = b.arguments
            opt = optis[-1]
            dyn = opt.dynamics
            shape = dyn.ctrl_amps.shape
            fk = "fun" if "fun" in a else "f" if "f" in a else "func"
            f, jac, cb = a[fk], a.get("jac" if name == "minimize" else "fprime"), a.get("callback")

            def pid(x):
                return rc.pulse(dyn.ctrl_amps if crab else np.array(x).reshape(shape))

            def fun(x, *y):
                x = np.array(x)
                rc.tick()
                e = dict(op="F", p=0, ret=0, raised=False, t=0)
                rc.ev.append(e)
                try:
                    v = f(x)
                    e["ret"] = E9(v)
                    return v
                except BaseException:
                    e["raised"] = True
                    raise
                finally:
                    e["p"] = pid(x)

            def grad(x, *y):
                x = np.array(x)
                rc.tick()
                e = dict(op="G", p=0, ret=0, raised=False, t=0)
                rc.ev.append(e)
                try:
                    v = jac(x)
                    e["ret"] = E9(np.sqrt(np.sum(np.asarray(v) ** 2)))
                    return v
                except BaseException:
                    e["raised"] = True
                    e["ret"] = E9(dyn.fid_computer.grad_norm)
                    raise
                finally:
                    e["p"] = pid(x)

            def call(*xs, **kk):
                rc.tick()
                e = dict(op="CB", p=0, ret=0, raised=False, t=int(rc.clock.t))
                rc.ev.append(e)
                try:
                    return cb(*xs, **kk)
                except BaseException:
                    e["raised"] = True
                    raise
            a[fk] = fun
            if jac is not None:
                a["jac" if name == "minimize" else "fprime"] = grad
            a["callback"] = call
            out = orig(*b.args, **b.kwargs)
            x = out.x if name == "minimize" else out[0]
            p = 0
            if not crab:
                p = pid(x)
            else:
                warn["x"] = np.array(x)
            if name == "minimize":
                warn["msg"] = out.message
            elif name == "fmin_bfgs":
                warn["w"] = int(out[6])
            elif name == "fmin_l_bfgs_b":
                w = out[2]
                warn["w"] = int(w["warnflag"])
                warn["msg"] = w["task"]
                if warn["w"] == 0 and "GRADIENT" not in str(w["task"]):
                    warn["w"] = 10
            else:
                warn["w"] = int(out[4])
            rc.ev.append(dict(op="ret", p=p, ret=0, raised=False, t=0))
            rc.tick()
            return out
        return go

    subs = [(getattr(so, n), wrap(n, getattr(so, n))) for n in ("minimize", "fmin_bfgs", "fmin_l_bfgs_b", "fmin")]
    subs.append((timeit.default_timer, rc.clock))
    start = rc.clock.t
    desc = dict(k=k, method=method, kind=kind, fid=fid, crab=crab, lim=lim, lo=str(lo), up=str(up), nc=nc, ns=ns,
                kw={a: str(b) for a, b in kw.items()})
    Q = evo.q
    with optim.Patch(subs):
        optimizer.Optimizer.__init__ = oinit
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                devnull = os.open(os.devnull, os.O_WRONLY)
                try:
                    import contextlib, io
                    with contextlib.redirect_stdout(io.StringIO()):
                        res = po.optimize_pulse(
                            Q(sysm[0]), [Q(c) for c in sysm[1]], Q(sysm[2]), Q(sysm[3]), amp_lbound=lo, amp_ubound=up,
                            fid_err_targ=lim["targ"], min_grad=lim["mingrad"], max_iter=lim["iters"], max_wall_time=lim["wall"],
                            optim_method=method, method_params=mp, dyn_type=kind, fid_type=ft, fid_params=fp or None,
                            prop_type=prop, gen_stats=stats, **kw)
                finally:
                    os.close(devnull)
        except Exception:
            return None, dict(desc, problem=short_tb())
        finally:
            optimizer.Optimizer.__init__ = real_init
    opt = optis[-1]
    dyn = opt.dynamics
    why = res.termination_reason
    last = rc.ev[-1] if rc.ev else None
    retd = bool(last) and last["op"] == "ret"
    if retd:
        w = warn["w"]
        if cls == "MIN":
            code = "ret-message" if why == warn["msg"] else str(why)
        else:
            T = {"BFGS": {0: "ret-gradmin", 1: "ret-maxiter", 2: "ret-precision"},
                 "LBFGSB": {0: "ret-converged", 10: "ret-converged", 1: "ret-limit", 2: "ret-task"},
                 "FMIN": {0: "ret-tolerance", 1: "ret-maxfun", 2: "ret-maxiter-f"}}[cls]
            names = {v: (optim.REASON[v] if v != "ret-task" else warn["msg"]) for v in T.values()}
            code = [n for n, t in names.items() if t == why]
            code = code[0] if code else str(why)
        if crab:
            last["p"] = 0
            # a point evaluated before, or else whatever the coefficients give now
            got = np.concatenate([np.ravel(g.get_optim_var_vals()) for g in opt.pulse_generator])
            last["p"] = rc.pulse(np.column_stack([g.gen_pulse() for g in opt.pulse_generator])) if np.allclose(got, warn["x"], atol=0, rtol=1e-12) else 0
            if last["p"] == 0:
                code = "coefficients-left-differ"
    else:
        code = CODE.get(why, str(why))
    init = rc.pulse(res.initial_amps)
    fin = rc.pulse(res.final_amps)
    left = rc.pulse(dyn.ctrl_amps)
    rt = np.array(dyn.tau, dtype=float)
    errs, X = [], None
    for a in rc.amps:
        e, x, size = reference(kind, fid, sysm, a, rt, N, sf)
        if not size < 1e4:
            return None, None       # nothing can be said about such numbers to the accuracy used here
        errs.append(E9(e))
        if a is rc.amps[fin - 1]:
            X = x
    st = []
    if stats:
        st = [res.stats.num_fidelity_func_calls, res.stats.num_grad_func_calls, res.stats.num_iter]
    flags = [f for f in optim.FLAGS if getattr(res, f)]
    # precision: errors of ill scaled systems are only good to a relative accuracy
    rec = dict(cls_=cls)
    rec = {"class": cls, "warn": warn["w"], "targ": E9(lim["targ"]) if lim["targ"] > 0 else -10, "calls": lim["calls"],
           "mingrad": E9(lim["mingrad"]) if lim["mingrad"] > 0 and not approx and not crab else -10, "wall": lim["wall"],
           "bounds": per, "bounded": bool(honours), "initbounded": True,
           "pulses": [[[E6(v) for v in row] for row in a] for a in rc.amps], "err": errs, "init": init,
           "ev": rc.ev, "t0": int(start), "tend": int(rc.clock.t), "stats": [int(v) for v in st],
           "res": dict(why=code, flags=flags, pulse=fin, left=left, err=E9(res.fid_err), init=init, initerr=E9(res.initial_fid_err),
                       evo=int(X is not None and close(full(res.evo_full_final), X, 1e-7)), nF=int(res.num_fid_func_calls),
                       nI=int(res.num_iter), wall=int(round(res.wall_time)))}
    if not rc.ev or not np.all(np.isfinite(np.concatenate([a.ravel() for a in rc.amps]))):
        return None, None
    return rec, desc


def judge(ck, pid, n, procs=8):
    """Record n runs, let TLC judge them, report what concerns the property."""
    recs, descs = [], []
    for rec, d in pmap(record, range(n), procs=procs, chunk=4):
        if rec is None:
            if d is not None:
                # running at all is P06's; a start outside the bounds P09's
                if pid == "P06" or (pid == "P09" and "bound" in d["problem"]):
                    ck.viol("run-raises:%s" % d["problem"][:60], d)
                ck.count("recordings_that_raise")
            else:
                ck.count("recordings_skipped")
            continue
        recs.append(rec)
        descs.append(d)
    r = run_tlc("RunTrace", {}, invariants=["Judged", "CallLimit", "Progress"], workers=4, extra_files={"trace.json": json.dumps(recs)})
    ck.tlc(r, "RunTrace")
    ck.traces(len(recs))
    ck.count("recorded_events", sum(len(x["ev"]) for x in recs))
    ck.count("recorded_runs", len(recs))
    for x in recs:
        ck.count("recorded outcome " + x["res"]["why"])
    ck.sample({"recorded_run": descs[0], "events": [(e["op"], e["p"]) for e in recs[0]["ev"][:12]]})
    other = set()
    for e in r.emitted:
        if e["p"] == pid:
            ck.viol("run:%s" % e["why"], dict(descs[e["r"] - 1], event=e["l"], res=recs[e["r"] - 1]["res"],
                                              events=[(x["op"], x["p"], x["raised"]) for x in recs[e["r"] - 1]["ev"][-6:]]))
        else:
            other.add((e["p"], e["why"]))
    ck.cov["recorded_other"] = sorted(other)
