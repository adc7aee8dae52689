"""P24: dynamics and optimisers put together by hand, in any order (spec/Assemble.tla)."""
import numpy as np
from common import *
import evo

KINDS = ("UNIT", "GEN_MAT", "SYMPL")
EVO_TIME = 1.5      # slots of exactly representable durations
OPS = {"drift", "ctrls", "ini", "tgt", "slots", "dtype", "prop", "fid", "side", "phase", "level", "tc", "dyn",
       "resize", "init", "update", "read", "early", "run"}
GROUPS = [{"drift", "slots"}, {"ctrls", "slots"}, {"ini", "tgt", "dtype"}, {"prop", "fid", "phase"}, {"side", "level", "resize"}, {"tc", "dyn", "run", "early"}]
ERR = {"TypeError": TypeError, "ValueError": ValueError}


class Operands:
    """The concrete operands behind the names of the specification."""

    def __init__(self, kind):
        self.kind = kind
        self.M = {}
        self.n = {1: 2, 2: 4 if kind == "SYMPL" else 3}
        r = np.random.RandomState(np_seed("assemble", kind))

        def gen(N):
            if kind == "SYMPL":
                A = r.normal(size=(N, N))
                return (A + A.T) / 2
            A = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
            return (A + A.conj().T) / 2 if kind == "UNIT" else 0.6 * A

        def oper(N):
            if kind == "UNIT":
                return np.linalg.qr(r.normal(size=(N, N)) + 1j * r.normal(size=(N, N)))[0]
            if kind == "SYMPL":
                return evo.expm_ref(0.4 * evo.omega_ref(N // 2) @ gen(N)).real
            return np.eye(N) + 0.3 * (r.normal(size=(N, N)) + 1j * r.normal(size=(N, N)))
        N1, N2 = self.n[1], self.n[2]
        # constant ones are repeated for every slot
        self.drift = {"A1": [gen(N1)] * 3, "B1": [gen(N1)] * 3, "A2": [gen(N2)] * 3,
                      "L3": [gen(N1) for _ in range(3)], "L2": [gen(N1) for _ in range(2)]}
        two = lambda N: [gen(N), gen(N)]
        self.ctrls = {"a1": [two(N1)] * 3, "b1": [[gen(N1)]] * 3, "a2": [two(N2)] * 3,
                      "T3": [two(N1) for _ in range(3)], "T2": [two(N1) for _ in range(2)]}
        self.oper = {"U1": oper(N1), "V1": oper(N1), "U2": oper(N2)}
        self.fixed = self.oper["U2"]

    def value(self, f, v, q):
        """An object to set, in one of the equivalent containers."""
        from qutip import Qobj
        if f == "drift":
            if v in ("A1", "B1", "A2"):
                return Qobj(self.drift[v][0])
            if v in ("L3", "L2"):
                return q.choice([list, tuple])(Qobj(x) for x in self.drift[v])
            return {"arr": lambda: np.array(self.drift["A1"][0]), "number": lambda: 1.5, "empty": lambda: q.choice([list, tuple])(),
                    "mixed": lambda: [Qobj(self.drift["A1"][0])] * 2 + [np.array(self.drift["B1"][0])]}[v]()
        if f == "ctrls":
            if v in ("a1", "b1", "a2"):
                return q.choice([list, tuple])(Qobj(x) for x in self.ctrls[v][0])
            if v in ("T3", "T2"):
                rows = [[Qobj(x) for x in row] for row in self.ctrls[v]]
                k = q.randrange(3)
                if k == 0:
                    A = np.empty((len(rows), 2), dtype=object)
                    for a in range(len(rows)):
                        for b in range(2):
                            A[a, b] = rows[a][b]
                    return A
                return rows if k == 1 else tuple(tuple(x) for x in rows)
            Q = [Qobj(x) for x in self.ctrls["a1"][0]]

            def flat():
                A = np.empty(2, dtype=object)
                A[0], A[1] = Q
                return A
            return {"ragged": lambda: [Q, Q, Q[:1]], "empty": lambda: q.choice([[], ()]), "mixed": lambda: q.choice([[Q[0], Q[1].full()], [Q, [Q[0], 2.0], Q]]),
                    "flat": flat, "text": lambda: "sigma", "single": lambda: 3}[v]()
        if v == "none":
            return None
        if v == "arr":
            return np.array(self.oper["U1"])
        return Qobj(self.oper[v])

    # ---- what the settings in force say
    def phase(self, M, side):
        if self.kind == "UNIT":
            return -1j * M
        if self.kind == "SYMPL":
            O = evo.omega_ref(len(M) // 2)
            return M @ (-O) if side == "postop" else O @ M
        return M

    def result(self, c, amps, grad):
        n, tau = c["slots"], EVO_TIME / c["slots"]
        D, C = self.drift[c["drift"]], self.ctrls[c["ctrls"]]
        A = [self.phase(D[k] + sum(amps[k, j] * C[k][j] for j in range(len(C[k]))), c["side"]) * tau for k in range(n)]
        P = [evo.expm_ref(a) for a in A]
        I, T = self.oper[c["ini"]], self.oper[c["tgt"]]
        fwd = [I]
        for p in P:
            fwd.append(p @ fwd[-1])
        X = fwd[-1]
        N = len(X)
        if c["fid"] == "UNIT":
            norm = np.trace(T.conj().T @ T).real
            ov = np.trace(T.conj().T @ X)
            err = abs(1 - (abs(ov) if c["phase"] == "PSU" else ov.real) / norm)
        else:
            sc = {"auto": 0.5 / N, "half": 0.5, "two": 2.0}[c["scale"]]
            err = sc * np.trace((T - X).conj().T @ (T - X)).real
        g = None
        if grad:
            g = np.zeros((n, len(C[0])))
            after = np.eye(N)
            for k in reversed(range(n)):
                for j in range(len(C[k])):
                    dX = after @ evo.dexpm_ref(A[k], self.phase(C[k][j], c["side"]) * tau) @ fwd[k]
                    if c["fid"] == "UNIT":
                        d = np.trace(T.conj().T @ dX)
                        g[k, j] = -(d * np.conj(ov) / abs(ov)).real / norm if c["phase"] == "PSU" else -d.real / norm
                    else:
                        g[k, j] = -2 * sc * np.trace((T - X).conj().T @ dX).real
                after = after @ P[k]
        return fwd, err, g


def amps_of(n, nc, p):
    return np.round(np.random.RandomState(np_seed("assemble-amps", n, nc, p)).uniform(-1, 1, (n, nc)), 5)


class Bench:
    def __init__(self, ops, q, rep):
        from qutip_qtrl import dynamics, optimconfig, optimizer, stats
        self.o, self.q, self.rep = ops, q, rep
        conf = optimconfig.OptimConfig()
        cls = {"UNIT": dynamics.DynamicsUnitary, "GEN_MAT": dynamics.DynamicsGenMat, "SYMPL": dynamics.DynamicsSymplectic}[ops.kind]
        self.dyn = cls(conf, params={"evo_time": EVO_TIME})
        if q.random() < 0.5:
            self.dyn.stats = stats.Stats()
        which = q.choice(["OptimizerBFGS", "OptimizerLBFGSB"])
        self.opt = getattr(optimizer, which)(conf, self.dyn)
        if q.random() < 0.5:
            self.opt.stats = self.dyn.stats
        self.tc = None
        self.given = {}

    def prop(self, v):
        from qutip_qtrl import propcomp
        c = {"DIAG": "PropCompDiag", "FRECHET": "PropCompFrechet", "AUG_MAT": "PropCompAugMat", "APPROX": "PropCompApproxGrad"}.get(v)
        self.dyn.prop_computer = None if c is None else getattr(propcomp, c)(self.dyn)

    def fid(self, v):
        from qutip_qtrl import fidcomp
        self.dyn.fid_computer = {"UNIT": fidcomp.FidCompUnitary, "TRACEDIFF": fidcomp.FidCompTraceDiff, "TDAPPROX": fidcomp.FidCompTraceDiffApprox, "none": lambda d: None}[v](self.dyn)

    def conds(self, v):
        from qutip_qtrl import termcond
        if v == "none":
            return None
        if v == "dict":
            return {"fid_err_targ": 1e-3}
        t = termcond.TerminationConditions()
        t.max_iterations, t.max_wall_time, t.min_gradient_norm = 3, 1e6, 1e-12
        t.fid_err_targ = 1e-9 if v == "err" else None
        t.fid_goal = 1 - 1e-9 if v == "goal" else None
        return t

    def gen(self, f, v, h):
        name = {"drift": {"gen": "drift_dyn_gen", "ham": "drift_ham"}, "ctrls": {"gen": "ctrl_dyn_gen", "ham": "ctrl_ham"}}[f][h]
        x = self.o.value(f, v, self.q)
        self.given[f] = x
        setattr(self.dyn, name, x)

    def set(self, f, v, h):
        from qutip import Qobj
        d = self.dyn
        if f in ("drift", "ctrls"):
            self.gen(f, v, h)
        elif f in ("ini", "tgt"):
            x = self.o.value(f, v, self.q)
            self.given[f] = x
            setattr(d, {"ini": "initial", "tgt": "target"}[f], x)
        elif f == "slots":
            d.num_tslots = v
        elif f == "dtype":
            d.oper_dtype = {"Qobj": Qobj, "ndarray": np.ndarray, "auto": None, "text": "dense"}[v]
        elif f == "prop":
            self.prop(v)
        elif f == "fid":
            self.fid(v)
        elif f == "scale":
            d.fid_computer.scale_factor = {"auto": None, "half": 0.5, "two": 2.0}[v]
        elif f == "side":
            d.phase_application = {"number": 7}.get(v, self.q.choice([v, v.upper()]))
        elif f == "phase":
            d.fid_computer.phase_option = None if v == "none" else v
        elif f == "level":
            x = {"number": 3}.get(v, self.q.choice([v, v.lower()]))
            if v == "NONE" and self.q.random() < 0.3:
                x = None
            # dynamics and optimiser understand the same levels
            err = []
            for y in (d, self.opt):
                try:
                    y.dumping = x
                except (TypeError, ValueError) as e:
                    err.append(e)
            if len(err) == 1:
                self.rep("level-one-side", "%r: %r" % (v, err))
            if err:
                raise err[0]
        elif f == "tc":
            self.tc = self.conds(v)
        elif f == "dyn":
            self.opt.dynamics = d if v == "ok" else None

    # ---- operations
    def do(self, o):
        q, d, op, c = self.q, self.dyn, o["op"], o["cfg"]
        if op in ("set", "live"):
            self.set(o["f"], o["v"], o["how"])
        elif op == "resize":
            vals = [("drift", c["drift"]), ("ctrls", c["ctrls"]), ("ini", c["ini"]), ("tgt", c["tgt"])]
            q.shuffle(vals)
            for f, v in vals:
                self.set(f, v, "gen")
        elif op == "init":
            self.buf = amps_of(c["slots"], o["nc"] or 2, o["pulse"] or 1)
            d.initialize_controls(self.buf)
        elif op == "update":
            self.buf = amps_of(c["slots"], o["nc"], o["pulse"])
            d.update_ctrl_amps(self.buf)
        elif op == "read":
            self.read(o)
        elif op == "early":
            for _ in range(q.choice([1, 2])):
                f = q.choice([lambda: d.fid_computer.get_fid_err(), lambda: d.compute_evolution(), lambda: d.full_evo, lambda: d.prop,
                              lambda: d.fid_computer.get_fid_err_gradient(), lambda: d.update_ctrl_amps(np.zeros((2, 2))),
                              lambda: d.save_amps("never.txt"), lambda: d.check_ctrls_initialized(), lambda: d.num_ctrls])
                try:
                    f()
                except Exception:
                    pass
        elif op == "run":
            before = None if d.ctrl_amps is None else np.array(d.ctrl_amps)
            if o["how"] == "attribute":
                self.opt.termination_conditions = self.tc
                res = self.opt.run_optimization()
            else:
                if self.tc is None:
                    self.opt.termination_conditions = None
                res = self.opt.run_optimization(self.tc)
            self.result(o, res, before)

    def result(self, o, res, before):
        c = o["cfg"]
        n, nc = c["slots"], o["nc"]
        rep = self.rep
        if not (np.shape(res.initial_amps) == (n, nc) and np.array_equal(res.initial_amps, before)):
            rep("run-initial-amps", "%r, held %r" % (res.initial_amps, before))
            return
        if np.shape(res.final_amps) != (n, nc) or not evo.close(res.final_amps, self.dyn.ctrl_amps):
            rep("run-final-amps", "%r, held %r" % (res.final_amps, self.dyn.ctrl_amps))
            return
        fwd, e, _ = self.o.result(c, np.array(res.final_amps), False)
        _, e0, _ = self.o.result(c, np.array(before), False)
        if not (evo.close(res.fid_err, e) and evo.close(res.initial_fid_err, e0)):
            rep("run-fid-err", "%r %r want %r %r" % (res.fid_err, res.initial_fid_err, e, e0))
        if not evo.close(evo.full(res.evo_full_final), fwd[-1]):
            rep("run-evo", "differs")
        if res.fid_err > res.initial_fid_err * (1 + 1e-9) + 1e-12:
            rep("run-worse", "%r > %r" % (res.fid_err, res.initial_fid_err))
        if not evo.close(res.time, np.arange(n + 1) * EVO_TIME / n, 2e-6):
            rep("run-time", res.time)

    def read(self, o):
        d, c, rep = self.dyn, o["cfg"], self.rep
        n, nc = c["slots"], o["nc"]
        if d.num_tslots != n or d.num_ctrls != nc:
            rep("numbers", "%r slots %r controls, want %r %r" % (d.num_tslots, d.num_ctrls, n, nc))
            return
        a = np.array(d.ctrl_amps)
        if o["pulse"] and not np.array_equal(a, amps_of(n, nc, o["pulse"])):
            rep("amps", "%r want %r" % (a, amps_of(n, nc, o["pulse"])))
            return
        if a.shape != (n, nc):
            rep("amps-shape", a.shape)
            return
        grad = c["prop"] != "APPROX" and c["fid"] != "TDAPPROX"
        fwd, err, g = self.o.result(c, a, grad)
        tasks = [self._err(err), self._fwd(fwd)]
        if grad:
            tasks.append(self._grad(g))
        self.q.shuffle(tasks)
        for t in tasks:
            t()

    def _err(self, want):
        def f():
            got = self.dyn.fid_computer.get_fid_err()
            if not evo.close(got, want):
                self.rep("fid-err", "%r want %r" % (got, want))
        return f

    def _fwd(self, fwd):
        def f():
            self.dyn.compute_evolution()
            got = self.dyn.fwd_evo
            if len(got) != len(fwd) or not all(evo.close(evo.full(x), y) for x, y in zip(got, fwd)):
                self.rep("evolution", "differs")
            if not evo.close(evo.full(self.dyn.full_evo), fwd[-1]):
                self.rep("full-evolution", "differs")
        return f

    def _grad(self, g):
        def f():
            got = self.dyn.fid_computer.get_fid_err_gradient()
            if not evo.close(got, g):
                self.rep("gradient", "%r want %r" % (got, g))
        return f

    # ---- what was set is still there
    def settings(self, o):
        from qutip_qtrl import dynamics
        d, c = self.dyn, o["cfg"]
        got = {"phase": getattr(d.fid_computer, "phase_option", None), "side": d.phase_application}
        if c["fid"] != "none" and c["level"] != "any":
            got.update(level=d.dumping, level2=self.opt.dumping)
        want = {"phase": c["phase"], "side": c["side"], "level": c["level"], "level2": c["level"]}
        if self.o.kind != "UNIT" or c["fid"] != "UNIT":
            del got["phase"]
        for k in got:
            if str(got[k]).upper() != want[k].upper():
                self.rep("setting-%s-after-%s" % (k, o["op"]), "%r want %r (%s)" % (got[k], want[k], o["v"]))
        for f, a in (("ini", "initial"), ("tgt", "target")):
            if getattr(d, a) is not self.given.get(f):
                self.rep("setting-%s-after-%s" % (f, o["op"]), "changed")


def _work(job):
    kind, recs, first = job
    from qutip_qtrl import errors
    classes = dict(ERR, UsageError=errors.UsageError)
    ops = Operands(kind)
    dev = []
    import io, sys
    sys.stdout = io.StringIO()      # the minimisers announce their results
    for n, h in enumerate(recs):
        q = rng("assemble", kind, first + n)
        here = [None]

        def rep(key, d):
            if len(dev) < 40:
                dev.append(("assemble:%s:%s" % (kind, key), dict(detail=str(d)[:700], at=here[0],
                            history=[(o["op"], o["f"], o["v"], o["how"], o["err"]) for o in h[1:]])))
        b = Bench(ops, q, rep)
        c = h[0]["cfg"]
        if c["drift"] != "none":
            vals = [(f, c[f]) for f in ("drift", "ctrls", "ini", "tgt", "slots", "tc")]
            q.shuffle(vals)
            for f, v in vals:
                b.set(f, v, "gen")
        for k, o in enumerate(h[1:], 1):
            here[0] = k
            want = tuple(classes[e] for e in o["err"])
            try:
                b.do(o)
                if want:
                    rep("accepted-%s-%s-%s" % (o["op"], o["f"], o["v"]), "want %s" % sorted(o["err"]))
                    break
            except Exception as e:
                if not want or not isinstance(e, want):
                    rep("raises-%s-%s" % (o["op"], o["f"]), "want %s: %s" % (sorted(o["err"]), short_tb()))
                    break
            b.settings(o)
    return len(recs), dev


def run(pid):
    thorough = TIER == "thorough"
    import_repo()
    ck = Check(pid)
    inv = ["TypeOK", "SoundWhenReady", "LastWins", "NoMemory", "Repairable"]
    jobs = []
    for kind in KINDS:
        A = []
        for k, g in enumerate(GROUPS):
            a = run_tlc("Assemble", dict(Kind=kind, Simulated=False, Ops=g | {"init", "read"}, FromScratch=Raw("{FALSE}"), MaxOps=5 if thorough else 4),
                        invariants=inv, properties=["RefusedHarmless"], emit="Emit")
            ck.tlc(a, "Assemble exhaustive %s %d" % (kind, k))
            A += a.emitted
        n = 8000 if thorough else 1500
        s = run_tlc("Assemble", dict(Kind=kind, Simulated=True, Ops=OPS, FromScratch=Raw("{FALSE, TRUE}"), MaxOps=17), invariants=["TypeOK", "SoundWhenReady"],
                    emit="Emit", simulate=n, depth=18, workers=1)
        ck.tlc(s, "Assemble simulated " + kind)
        r = rng("assemble-pick", kind)
        A, S = sorted(A, key=json.dumps), sorted(s.emitted, key=json.dumps)
        S = r.sample(S, min(len(S), 60000 if thorough else 5000))
        A = r.sample(A, min(len(A), 60000 if thorough else 3000))
        ck.count("initialised", sum(1 for h in S for o in h if o["op"] == "init" and not o["err"]))
        ck.count("refused", sum(1 for h in S + A for o in h if o["err"]))
        ck.count("reads", sum(1 for h in S + A for o in h if o["op"] == "read"))
        ck.count("runs", sum(1 for h in S + A for o in h if o["op"] == "run" and not o["err"]))
        recs = A + S
        jobs += [(kind, recs[k:k + 150], k) for k in range(0, len(recs), 150)]
        if kind == "UNIT":
            ck.sample([(o["op"], o["f"], o["v"], o["how"], o["err"]) for o in S[0]])
    for n, dev in pmap(_work, jobs, chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    ck.assumptions += ["operators of different sizes together are refused sooner or later, which is left open",
                       "what a computation gives between a changed setting and the next initialisation is left open"]
    return ck
