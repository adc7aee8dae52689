"""Replays behaviours of spec/Evo.tla on real Dynamics objects.

The specification names every operator as a word over atoms (slot propagators,
their derivatives, initial operator, inverse target); this module interprets
the atoms as matrices of concrete random systems with its own matrix
exponential, and compares everything the implementation shows after each
operation of a behaviour with the interpretation of the specified words."""
import sys, os, itertools
from common import *
import numpy as np

TOL = 2e-8


# ------------------------------------------------------------- reference maths
def expm_ref(A):
    A = np.asarray(A, dtype=complex)
    nrm = np.linalg.norm(A, 1)
    s = max(0, int(np.ceil(np.log2(nrm))) + 4) if nrm > 0 else 0
    B = A / (2.0 ** s)
    R = np.eye(len(A), dtype=complex)
    T = np.eye(len(A), dtype=complex)
    for m in range(1, 20):
        T = T @ B / m
        R = R + T
    for _ in range(s):
        R = R @ R
    return R


def dexpm_ref(A, E):
    n = len(A)
    M = np.zeros((2 * n, 2 * n), dtype=complex)
    M[:n, :n] = A
    M[n:, n:] = A
    M[:n, n:] = E
    return expm_ref(M)[:n, n:]


def omega_ref(n):
    O = np.zeros((2 * n, 2 * n))
    for i in range(n):
        O[2 * i, 2 * i + 1] = 1.0
        O[2 * i + 1, 2 * i] = -1.0
    return O


# --------------------------------------------------------------- pulse tables
# pulse tables (amplitude ids) handed to the specification, per shape
SHAPES = {
    # 3 slots, 2 controls; pulse 5 has another number of slots
    "A": [[[1, 2], [3, 4], [5, 6]],
          [[1, 2], [3, 7], [5, 6]],
          [[8, 9], [1, 1], [3, 4]],
          [[10, 2], [3, 4], [5, 6]],
          [[3, 4], [1, 7]]],
    "B": [[[1], [2]], [[1], [3]], [[2], [1]], [[10], [2]], [[4], [4], [0]]],
    "C": [[[1, 2]], [[1, 3]], [[2, 1]], [[10, 2]], [[0, 0]]],
    "D": [[[1, 2, 3], [3, 4, 5], [5, 6, 0], [6, 1, 2]],
          [[1, 2, 3], [3, 4, 5], [5, 6, 0], [6, 1, 7]],
          [[2, 1, 3], [3, 4, 5], [6, 5, 0], [1, 6, 2]],
          [[10, 2, 3], [3, 4, 5], [5, 6, 0], [6, 1, 2]],
          [[0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0, 0]]],
}


class Problem:
    """A concrete control problem: two system variants, amplitudes, slot times."""

    def __init__(self, tag, kind, shape, N=2, fid="default", td_drift=False, td_ctrl=False,
                 states=False, equal_tau=False, commuting=False, degenerate=False, sparse=False,
                 rotated=False, gain=None, phi=None, dims=None):
        self.tag, self.kind, self.shape, self.N, self.fid = tag, kind, shape, N, fid
        self.td_drift, self.td_ctrl, self.states = td_drift, td_ctrl, states
        self.equal_tau, self.commuting, self.degenerate, self.sparse = equal_tau, commuting, degenerate, sparse
        r = np.random.RandomState(np_seed("problem", tag))
        self.phi = phi        # phase of general dynamics: "scalar" or "matrix"
        if phi:
            self.phi = 0.6 - 0.8j if phi == "scalar" else np.eye(N) + 0.4 * (r.normal(size=(N, N)) + 1j * r.normal(size=(N, N)))
        # structure of the space: of an operator; initial and target may be states in it
        self.dims = dims or [[N], [N]]
        self.gain = gain      # initial operator larger than a unitary one: the fidelity exceeds 1
        self.basis = None
        if rotated:
            self.basis = np.linalg.qr(r.normal(size=(N, N)) + 1j * r.normal(size=(N, N)))[0]
        self.pulses = SHAPES[shape]
        nc = len(self.pulses[0][0])
        self.nc = nc
        self.maxslots = max(len(p) for p in self.pulses)
        amps = list(np.round(r.uniform(-1.4, 1.4, 12), 6))
        amps[0] = 0.0
        amps[10] = amps[1] + 3e-6
        if self.tag in ("u3", "u5"):
            # a change that is tiny relative to the amplitude still moves the pulse
            amps[1] = 37.25
            amps[10] = 37.25 * (1 + 6e-9)
        self.amps = amps
        self.tau = {}
        for n in range(1, self.maxslots + 1):
            self.tau[n] = (np.full(n, 0.3) if equal_tau else np.round(r.uniform(0.15, 0.6, n), 4))
        self.sysv = [self._system(r) for _ in range(2)]

    def _gen(self, r):
        N = self.N
        if self.kind == "UNIT":
            M = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))
            M = (M + M.conj().T) / 2
            if self.commuting:
                M = np.diag(r.randint(-2, 3, N).astype(complex))
            if self.basis is not None:
                # repeated eigenvalues in a basis that is not the standard one
                e = r.randint(-1, 2, N).astype(float)
                e[1] = e[0]
                M = self.basis @ np.diag(e) @ self.basis.conj().T
                M = (M + M.conj().T) / 2
            return M
        if self.kind == "SYMPL":
            M = r.normal(size=(N, N))
            return (M + M.T) / 2
        M = (r.normal(size=(N, N)) + 1j * r.normal(size=(N, N))) * 0.6
        return M

    def _system(self, r):
        s = {}
        n = self.maxslots
        sp = self._sparse(r) if self.sparse else None
        def G():
            return self._gen(r) if sp is None else sp()
        drift = [G() for _ in range(n)] if self.td_drift else [G()] * n
        if self.degenerate:
            drift = [np.zeros_like(d) for d in drift]
        if self.td_ctrl:
            ctrls = [[G() for _ in range(self.nc)] for _ in range(n)]
        else:
            c = [G() for _ in range(self.nc)]
            ctrls = [c] * n
        s["drift"], s["ctrls"] = drift, ctrls
        N = self.N
        if self.states:
            a = r.normal(size=(N, 1)) + 1j * r.normal(size=(N, 1))
            b = r.normal(size=(N, 1)) + 1j * r.normal(size=(N, 1))
            s["initial"], s["target"] = a / np.linalg.norm(a), b / np.linalg.norm(b)
        else:
            if self.kind == "UNIT":
                s["initial"] = np.linalg.qr(r.normal(size=(N, N)) + 1j * r.normal(size=(N, N)))[0]
                s["target"] = np.linalg.qr(r.normal(size=(N, N)) + 1j * r.normal(size=(N, N)))[0]
            elif self.kind == "SYMPL":
                s["initial"] = np.eye(N)
                O = omega_ref(N // 2)
                M = r.normal(size=(N, N)); M = (M + M.T) / 2
                s["target"] = expm_ref(0.4 * O @ M).real
            else:
                s["initial"] = np.eye(N) + 0.3 * r.normal(size=(N, N))
                s["target"] = np.eye(N) + 0.5 * r.normal(size=(N, N)) + 0.5j * r.normal(size=(N, N))
        if self.gain:
            s["initial"] = self.gain * s["initial"]
        return s

    def _sparse(self, r):
        N = self.N

        def g():
            M = np.zeros((N, N), dtype=complex)
            i, j = r.choice(N, 2, replace=False)
            v = r.normal() + 1j * r.normal()
            if self.kind == "UNIT":
                M[i, j], M[j, i] = v, np.conj(v)
                M[i, i] = r.normal()
            else:
                M[i, j] = v
            return M
        return g

    # ---- atoms
    def array(self, i):
        """Amplitude array of pulse i (1-based)."""
        return np.array([[self.amps[a] for a in row] for row in self.pulses[i - 1]])

    def phase(self, M, side="postop"):
        if self.kind == "UNIT":
            return -1j * M
        if self.kind == "SYMPL":
            O = omega_ref(self.N // 2)
            return M @ (-O) if side == "postop" else O @ M
        if self.phi is not None:
            F = self.phi * np.eye(self.N) if np.ndim(self.phi) == 0 else self.phi
            return M @ F if side == "postop" else F @ M
        return M

    def gen(self, s, k, a, side="postop"):
        S = self.sysv[s - 1]
        return S["drift"][k] + sum(self.amps[x] * S["ctrls"][k][j] for j, x in enumerate(a))

    def atom(self, s, n, l, side):
        key = (s, n, l["t"], l["k"], l["j"], tuple(l["a"]), side)
        if key in self._atoms:
            return self._atoms[key]
        S = self.sysv[s - 1]
        if l["t"] == "I":
            M = S["initial"]
        elif l["t"] == "T":
            t = S["target"]
            M = t.conj().T if (self.kind == "UNIT" or self.states) else np.linalg.inv(t)
        else:
            k = l["k"] - 1
            tau = float(self.tau[n][k])
            A = self.phase(self.gen(s, k, l["a"]), side) * tau
            if l["t"] == "P":
                M = expm_ref(A)
            else:
                M = dexpm_ref(A, self.phase(S["ctrls"][k][l["j"] - 1], side) * tau)
        self._atoms[key] = M
        return M

    _atoms = None

    def word(self, s, n, w, side):
        M = None
        for l in w:
            X = self.atom(s, n, l, side)
            M = X if M is None else M @ X
        return M

    def reference(self, words, side="postop"):
        """Interpret the specification's word table for every system variant."""
        self._atoms = {}
        ref = {}
        for s in (1, 2):
            for w in words:
                i, n = w["i"], len(w["pulse"])
                W = lambda x: self.word(s, n, x, side)
                d = {"n": n,
                     "dyn_gen": [self.gen(s, k, w["pulse"][k]) for k in range(n)],
                     "prop": [W(x) for x in w["prop"]],
                     "prop_grad": [[W(x) for x in row] for row in w["pgrad"]],
                     "fwd": [W(x) for x in w["fwd"]],
                     "onwd": [W(x) for x in w["onwd"]],
                     "onto": [W(x) for x in w["onto"]],
                     "full": W(w["full"])}
                self._measure(s, n, w, d, W)
                ref[s, i] = d
        return ref

    def _measure(self, s, n, w, d, W):
        S = self.sysv[s - 1]
        F = d["full"]
        dF = [[W(x) for x in row] for row in w["dfull"]]
        d["dfull"] = dF
        T = S["target"]
        # phase-insensitive / phase-sensitive overlap
        if self.kind == "UNIT":
            norm = np.trace(T.conj().T @ T).real
            ov = np.trace(W(w["over"]))
            dov = np.array([[np.trace(W(x)) for x in row] for row in w["dover"]])
            f = abs(ov) / norm
            d["PSU"] = abs(1 - f)
            d["gPSU"] = -np.sign(1 - f) * np.real(dov * np.conj(ov) / abs(ov)) / norm
            d["fid_PSU"] = f
            f = ov.real / norm
            d["SU"] = abs(1 - f)
            d["gSU"] = -np.sign(1 - f) * dov.real / norm
            d["fid_SU"] = f
        diff = T - F
        sc = 1.0 / (2 * self.N)
        d["TRACEDIFF"] = sc * np.trace(diff.conj().T @ diff).real
        d["gTRACEDIFF"] = np.array([[-2 * sc * np.trace(diff.conj().T @ x).real for x in row] for row in dF])

    def approx_grad(self, s, i, eps, side, scale=None):
        """Forward differences of the trace-difference error (for TDAPPROX)."""
        S = self.sysv[s - 1]
        sc = 1.0 / (2 * self.N) if scale is None else scale
        pulse = self.pulses[i - 1]
        n = len(pulse)
        a = self.array(i)

        def err(a):
            X = S["initial"]
            for k in range(n):
                G = S["drift"][k] + sum(a[k, j] * S["ctrls"][k][j] for j in range(self.nc))
                X = expm_ref(self.phase(G, side) * float(self.tau[n][k])) @ X
            D = S["target"] - X
            return sc * np.trace(D.conj().T @ D).real
        e0 = err(a)
        g = np.zeros((n, self.nc))
        for k in range(n):
            for j in range(self.nc):
                b = a.copy(); b[k, j] += eps
                g[k, j] = (err(b) - e0) / eps
        return g


# ------------------------------------------------------------- real object
def q(M, sparse=False, dims=None):
    from qutip import Qobj
    M = np.asarray(M)
    if dims is not None and M.shape[0] != M.shape[1]:
        dims = [dims[0], [1]]
    Q = Qobj(M, dims=dims) if dims is not None else Qobj(M)
    return Q.to("csr") if sparse else Q


def build(problem, cfg, s=1, n=None, stats=True):
    from qutip_qtrl import pulseoptim as po
    from qutip import Qobj
    n = n or len(problem.pulses[0])
    drift, ctrls, ini, tgt = gens(problem, s, n, cfg)
    dp = {}
    if cfg.get("dtype") == "Qobj":
        dp["oper_dtype"] = Qobj
    elif cfg.get("dtype") == "ndarray":
        dp["oper_dtype"] = np.ndarray
    for k in ("memory_optimization", "cache_phased_dyn_gen", "cache_prop_grad",
              "cache_dyn_gen_eigenvectors_adj", "phase_application", "sparse_eigen_decomp",
              "unitarity_check_level"):
        if cfg.get(k) is not None:
            dp[k] = cfg[k]
    if problem.phi is not None:
        dp["dyn_gen_phase"] = q(problem.phi, dims=problem.dims) if np.ndim(problem.phi) and cfg.get("dtype") == "Qobj" else problem.phi
    fp = dict(cfg.get("fid_params") or {})
    kw = {}
    if cfg.get("direct"):
        return Direct(problem, cfg, dp, fp, drift, ctrls, ini, tgt, n, stats)
    if cfg.get("log_level") is not None:
        kw["log_level"] = cfg["log_level"]
    opt = po.create_pulse_optimizer(
        drift, ctrls, ini, tgt, tau=np.array(problem.tau[n]), dyn_type=problem.kind,
        dyn_params=dp or None, prop_type=cfg.get("prop", "DEF"), fid_type=cfg.get("fid_type", "DEF"),
        fid_params=fp or None, gen_stats=stats, **kw)
    return opt


class Direct:
    """Dynamics built by hand rather than through create_pulse_optimizer."""

    def __init__(self, p, cfg, dp, fp, drift, ctrls, ini, tgt, n, stats):
        from qutip_qtrl import dynamics, optimconfig, fidcomp, propcomp
        from qutip_qtrl import stats as st
        conf = optimconfig.OptimConfig()
        if cfg.get("log_level") is not None:
            conf.log_level = cfg["log_level"]
        cls = {"UNIT": dynamics.DynamicsUnitary, "GEN_MAT": dynamics.DynamicsGenMat,
               "SYMPL": dynamics.DynamicsSymplectic}[p.kind]
        d = cls(conf, params=dp or None)
        pc = {"DIAG": propcomp.PropCompDiag, "FRECHET": propcomp.PropCompFrechet,
              "AUG_MAT": propcomp.PropCompAugMat, "APPROX": propcomp.PropCompApproxGrad}.get(cfg.get("prop"))
        if pc:
            d.prop_computer = pc(d)
        fc = {"UNIT": fidcomp.FidCompUnitary, "TRACEDIFF": fidcomp.FidCompTraceDiff,
              "TDAPPROX": fidcomp.FidCompTraceDiffApprox}.get(cfg.get("fid_type"))
        if fc:
            d.fid_computer = fc(d, params=fp or None)
        elif fp:
            for k, v in fp.items():
                setattr(d.fid_computer, k, v)
        if cfg.get("ham"):
            # the Hamiltonian names of unitary dynamics
            d.drift_ham, d.ctrl_ham, d.initial, d.target = drift, ctrls, ini, tgt
        else:
            d.drift_dyn_gen, d.ctrl_dyn_gen, d.initial, d.target = drift, ctrls, ini, tgt
        d.tau = np.array(p.tau[n])
        if stats:
            d.stats = st.Stats()
        self.dynamics = d


def gens(problem, s, n, cfg=None):
    S = problem.sysv[s - 1]
    sp, dm = problem.sparse, problem.dims
    cont = (cfg or {}).get("container", "plain")
    # equivalent ways of supplying the same generators
    as_list = cont == "lists" or (cont == "alternate" and s == 2)
    drift = [q(d, sp, dm) for d in S["drift"][:n]] if (problem.td_drift or as_list) else q(S["drift"][0], sp, dm)
    if problem.td_ctrl or as_list:
        ctrls = np.empty((n, problem.nc), dtype=object)
        for k in range(n):
            for j in range(problem.nc):
                ctrls[k, j] = q(S["ctrls"][k][j], sp, dm)
    else:
        ctrls = [q(c, sp, dm) for c in S["ctrls"][0]]
    return drift, ctrls, q(S["initial"], dims=dm), q(S["target"], dims=dm)


def close(a, b, tol=TOL):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0.0))))


def full(x):
    return np.asarray(x.full() if hasattr(x, "full") else x)


STAT = {"upd": "num_ctrl_amp_updates", "chg": "num_ctrl_amp_changes", "slots": "num_timeslot_changes",
        "rec": "num_tslot_recompute", "fid": "num_fidelity_computes", "grad": "num_grad_computes"}


class Replayer:
    """Runs one behaviour; report(prop, key, detail) is called per deviation."""

    def __init__(self, problem, cfg, ref, report, stats=True):
        self.p, self.cfg, self.ref, self.report, self.stats = problem, cfg, ref, report, stats
        self.obs = []
        self.shims = False      # compare the deprecated names with the specification too

    def run(self, h):
        self.where = ""
        try:
            o = h[0]
            n = len(self.p.pulses[o["i"] - 1])
            self.opt = build(self.p, self.cfg, 1, n, self.stats)
            self.dyn = self.opt.dynamics
            self.buf = self.p.array(o["i"])
            self.dyn.initialize_controls(self.buf)
        except Exception:
            for pr in ("P01", "P02", "P03"):
                self.report(pr, "init-raises", short_tb())
            self.obs.append(("init", "exc"))
            return
        self._after(o, 0)
        for n, o in enumerate(h[1:], 1):
            if not self._step(o, n):
                return
            self._after(o, n)

    def _after(self, o, n):
        if o["op"] in ("init", "reinit", "supply", "resupply"):
            A = self.p.array(o["i"])
            if np.shape(self.dyn.ctrl_amps) != A.shape or not np.array_equal(self.dyn.ctrl_amps, A):
                for pr in ("P01", "P02"):
                    self.report(pr, "ctrl_amps-after-" + o["op"], "op %d: %s, supplied %s" % (n, self.dyn.ctrl_amps, A))
        if self.stats and self.dyn.stats is not None:
            for k, a in STAT.items():
                v = getattr(self.dyn.stats, a)
                if int(v) != o["st"][k]:
                    self.report("P12", "stat-%s-after-%s" % (a, o["op"]),
                                "op %d: %s=%s, specified %s" % (n, a, v, o["st"][k]))

    def _step(self, o, n):
        op = o["op"]
        dyn = self.dyn
        try:
            if op == "supply":
                self.buf = self.p.array(o["i"])
                dyn.update_ctrl_amps(self.buf)
            elif op == "resupply":
                self.buf[...] = self.p.array(o["i"])
                dyn.update_ctrl_amps(self.buf)
            elif op == "scribble":
                self.buf[...] = self.p.array(o["i"])
            elif op == "reinit":
                nn = len(self.p.pulses[o["i"] - 1])
                retime = nn != dyn.num_tslots
                if retime:
                    dyn.tau = np.array(self.p.tau[nn])
                if o["s"] != self.cursys(o) or retime:
                    d, c, i, t = gens(self.p, o["s"], nn, self.cfg)
                    dyn.drift_dyn_gen, dyn.ctrl_dyn_gen, dyn.initial, dyn.target = d, c, i, t
                if self.cfg.get("other_side"):
                    dyn.phase_application = side_of(self.cfg, o["s"])
                self._s = o["s"]
                self.buf = self.p.array(o["i"])
                dyn.initialize_controls(self.buf)
            elif op == "peek":
                for a in ("fwd_evo", "onwd_evo", "onto_evo", "prop", "dyn_gen", "prop_grad"):
                    try:
                        getattr(dyn, a)
                    except Exception:
                        pass
            elif op in ("evo", "fid", "grad"):
                r = self.ref[o["s"], o["read"]]
                getattr(self, "_" + op)(r, o, n)
        except Exception:
            who = {"evo": ["P01"], "fid": ["P02"], "grad": ["P03"]}.get(op, ["P01", "P02", "P03"])
            for pr in who:
                self.report(pr, "%s-raises" % op, "op %d: %s" % (n, short_tb()))
            self.obs.append((op, "exc"))
            return False
        return True

    _s = 1

    def cursys(self, o):
        return self._s

    # -- reads
    def _evo(self, r, o, n):
        dyn = self.dyn
        rep = lambda k, d: self.report("P01", "evo-" + k, "op %d %s" % (n, d))
        dyn.compute_evolution()
        ns = r["n"]
        fc = dyn.fid_computer
        items = [("dyn_gen", dyn.dyn_gen, r["dyn_gen"]), ("prop", dyn.prop, r["prop"]),
                 ("fwd_evo", dyn.fwd_evo, r["fwd"])]
        if fc.uses_onwd_evo:
            items.append(("onwd_evo", dyn.onwd_evo, r["onwd"]))
        if fc.uses_onto_evo:
            items.append(("onto_evo", dyn.onto_evo, r["onto"]))
        if not close(full(dyn.onto_evo_target), self.p.atom(o["s"], ns, {"t": "T", "k": 0, "j": 0, "a": []}, "postop")):
            rep("onto_evo_target", "differs")
        for name, got, want in items:
            if got is None or len(got) != len(want):
                rep(name + "-length", "got %s want %d" % (got if got is None else len(got), len(want)))
                continue
            for k in range(len(want)):
                if not close(full(got[k]), want[k]):
                    rep(name, "index %d of %d: got %s want %s" % (k, len(want), full(got[k]).ravel()[:4], np.asarray(want[k]).ravel()[:4]))
                    break
                dims = self._dims(np.shape(want[k]))
                if getattr(got[k], "dims", dims) != dims:
                    rep(name + "-dims", "index %d: %s, want %s" % (k, got[k].dims, dims))
                    break
        if not close(full(dyn.full_evo), r["full"]):
            rep("full_evo", "differs")
        if getattr(dyn.full_evo, "dims", None) not in (None, self._dims(np.shape(r["full"]))):
            rep("full_evo-dims", dyn.full_evo.dims)
        if dyn.prop_grad is not None and dyn.cache_prop_grad:
            pg = dyn.prop_grad
            for k in range(ns):
                for j in range(self.p.nc):
                    if not close(full(pg[k, j]), r["prop_grad"][k][j]):
                        rep("prop_grad", "slot %d ctrl %d" % (k, j))
                        self.report("P03", "prop_grad", "slot %d ctrl %d" % (k, j))
        if self.shims:
            self._shims(r, o, n)
        self.obs.append(("evo", [full(x) for x in dyn.prop] + [full(x) for x in dyn.fwd_evo]))
        self._structure(dyn)

    def _dims(self, shape):
        D = self.p.dims
        return [D[0] if shape[0] == self.p.N else [1], D[1] if shape[1] == self.p.N else [1]]

    # -- what the deprecated and alternative names give at a settled point
    def _shims(self, r, o, n):
        import warnings
        p, dyn, ns = self.p, self.dyn, r["n"]
        s, side = o["s"], side_of(self.cfg, o["s"])
        fc, pc, tc = dyn.fid_computer, dyn.prop_computer, dyn.tslot_computer
        rep = lambda k, d="": self.report("P22", k, "op %d %s" % (n, d))
        ph = lambda M: p.phase(M, side)

        def same(name, fn, want):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    got = fn()
                except Exception:
                    rep(name + "-raises", short_tb())
                    return
            if isinstance(want, list):
                if got is None or len(got) != len(want):
                    rep(name + "-length", "%s, want %d" % (got if got is None else len(got), len(want)))
                    return
                pairs = list(zip(got, want))
            else:
                pairs = [(got, want)]
            for k, (g, w) in enumerate(pairs):
                ok = g == w if isinstance(w, (bool, int)) else g is not None and close(full(g), w)
                if not ok:
                    rep(name, "entry %d: %s, want %s" % (k, np.ravel(full(g))[:4] if g is not None else None, np.ravel(w)[:4]))
                    return
        S = p.sysv[s - 1]
        pulse = p.pulses[o["read"] - 1]
        same("get_num_ctrls", dyn.get_num_ctrls, p.nc)
        same("get_owd_evo_target", dyn.get_owd_evo_target, p.atom(s, ns, {"t": "T", "k": 0, "j": 0, "a": []}, side))
        same("evo_init2t", lambda: dyn.evo_init2t, r["fwd"])
        if fc.uses_onwd_evo:
            same("evo_t2end", lambda: dyn.evo_t2end, r["onwd"])
        if fc.uses_onto_evo:
            same("evo_t2targ", lambda: dyn.evo_t2targ, r["onto"])
        unit = fc.id_text == "UNIT"
        same("uses_evo_t2end", lambda: fc.uses_evo_t2end, not unit)
        same("uses_evo_t2targ", lambda: fc.uses_evo_t2targ, unit)

        def turned(old, new, other):
            v, w = getattr(fc, new), getattr(fc, other)
            setattr(fc, old, not v)
            got = (getattr(fc, new), getattr(fc, other), getattr(fc, old))
            setattr(fc, old, v)
            return got == (not v, w, not v) and (getattr(fc, new), getattr(fc, other)) == (v, w)
        same("set-uses_evo_t2end", lambda: turned("uses_evo_t2end", "uses_onwd_evo", "uses_onto_evo"), True)
        same("set-uses_evo_t2targ", lambda: turned("uses_evo_t2targ", "uses_onto_evo", "uses_onwd_evo"), True)
        same("get_timeslot_for_fidelity_calc", tc.get_timeslot_for_fidelity_calc, ns)
        for k in range(ns):
            H = p.gen(s, k, pulse[k])
            same("combine_dyn_gen", lambda: dyn.combine_dyn_gen(k), H)
            same("get_dyn_gen", lambda: dyn.get_dyn_gen(k), ph(H))
            same("compute_propagator", lambda: pc.compute_propagator(k), r["prop"][k])
            for j in range(p.nc):
                if k == 0:
                    same("get_ctrl_dyn_gen", lambda: dyn.get_ctrl_dyn_gen(j), ph(S["ctrls"][0][j]))
                if self.cfg.get("prop") == "APPROX":
                    eps = 0.01
                    same("compute_diff_prop", lambda: pc.compute_diff_prop(k, j, eps),
                         expm_ref((ph(H) + eps * ph(S["ctrls"][k][j])) * float(p.tau[ns][k])))
                elif kind_of(p, self.cfg) != "approx":
                    same("compute_prop_grad", lambda: pc.compute_prop_grad(k, j, compute_prop=False), r["prop_grad"][k][j])
                    if self.cfg.get("prop") in ("FRECHET", "AUG_MAT") or p.kind != "UNIT":
                        same("compute_prop_grad+prop", lambda: list(pc.compute_prop_grad(k, j)),
                             [r["prop"][k], r["prop_grad"][k][j]])
        if p.kind == "UNIT":
            as_list = isinstance(dyn.drift_ham, (list, np.ndarray))
            same("drift_ham", lambda: list(dyn.drift_ham)[:ns] if as_list else dyn.drift_ham,
                 [S["drift"][k] for k in range(ns)] if as_list else S["drift"][0])
            td = isinstance(dyn.ctrl_ham, np.ndarray)
            same("ctrl_ham", lambda: list(np.ravel(dyn.ctrl_ham)) if td else list(dyn.ctrl_ham),
                 [S["ctrls"][k][j] for k in range(ns) for j in range(p.nc)] if td else list(S["ctrls"][0]))
            if unit:
                opt = self.measure()
                same("set_phase_option", lambda: (fc.set_phase_option(opt), fc.phase_option == opt)[1], True)
                other = "SU" if opt == "PSU" else "PSU"
                same("set_phase_option-other", lambda: (fc.set_phase_option(other), fc.phase_option == other)[1], True)
                fc.phase_option = opt

    def _structure(self, dyn):
        if self.p.kind == "UNIT":
            for nm, ops in (("prop", dyn.prop), ("full", [dyn.full_evo] if not self.p.states and not self.p.gain else [])):
                for U in ops:
                    U = full(U)
                    if not close(U.conj().T @ U, np.eye(len(U))):
                        self.report("P05", nm + "-not-unitary", "")
        elif self.p.kind == "SYMPL":
            O = omega_ref(self.p.N // 2)
            for nm, ops in (("prop", dyn.prop), ("full", [dyn.full_evo])):
                for S in ops:
                    S = full(S)
                    if not close(S.T @ O @ S, O):
                        self.report("P05", nm + "-not-symplectic", "")
            if not close(full(dyn.omega), O):
                self.report("P05", "omega", str(full(dyn.omega)))

    def measure(self):
        f = self.cfg.get("fid_type", "DEF")
        if f == "DEF":
            f = "UNIT" if self.p.kind == "UNIT" else "TRACEDIFF"
        if f == "UNIT":
            return (self.cfg.get("fid_params") or {}).get("phase_option", "PSU")
        return f

    def _scale(self):
        s = (self.cfg.get("fid_params") or {}).get("scale_factor")
        return 1.0 if s is None else s * 2 * self.p.N

    def _fid(self, r, o, n):
        m = self.measure()
        fc = self.dyn.fid_computer
        e = fc.get_fid_err()
        want = r["TRACEDIFF"] * self._scale() if m in ("TRACEDIFF", "TDAPPROX") else r[m]
        if not (np.ndim(e) == 0 and close(e, want)):
            self.report("P02", "fid-err-" + m, "op %d: got %r, measure is %r" % (n, e, want))
        if m in ("PSU", "SU"):
            f = fc.get_fidelity()
            if not close(f, r["fid_" + m]):
                self.report("P02", "fidelity-" + m, "op %d: got %r, want %r" % (n, f, r["fid_" + m]))
        self.obs.append(("fid", e))

    def _grad(self, r, o, n):
        m = self.measure()
        fc = self.dyn.fid_computer
        g = fc.get_fid_err_gradient()
        if m == "TDAPPROX":
            eps = fc.epsilon
            side = side_of(self.cfg, o["s"])
            exact = r["gTRACEDIFF"] * self._scale()
            key = (self.p.tag, o["s"], o["read"], side, eps)
            if key not in self._ap:
                self._ap[key] = self.p.approx_grad(o["s"], o["read"], eps, side)
            fwd = self._ap[key] * self._scale()
            ok = np.shape(g) == exact.shape and np.all(np.abs(g - exact) <= 1.5 * np.abs(fwd - exact) + 1e-6)
            want = fwd
        else:
            want = r["gTRACEDIFF"] * self._scale() if m == "TRACEDIFF" else r["g" + m]
            ok = close(g, want)
        if not ok:
            self.report("P03", "grad-" + m, "op %d: got %s, derivative is %s" % (n, np.asarray(g).tolist(), np.asarray(want).tolist()))
        gn = fc.grad_norm
        if not close(gn, np.sqrt(np.sum(np.asarray(g) ** 2)), 1e-12):
            self.report("P03", "grad-norm", "op %d: %r" % (n, gn))
        self.obs.append(("grad", np.asarray(g)))

    _ap = {}


# ------------------------------------------------------------- configurations
def problems(tier):
    P = []
    add = lambda *a, **k: P.append(Problem(*a, **k))
    add("u1", "UNIT", "A")
    add("u2", "UNIT", "A", N=3, td_drift=True, td_ctrl=True)
    add("u3", "UNIT", "B", N=4, states=True)
    add("u4", "UNIT", "C", N=2, degenerate=True)
    add("u5", "UNIT", "D", N=3, td_drift=True)
    add("u6", "UNIT", "A", N=3, commuting=True, td_ctrl=True)
    add("u7", "UNIT", "B", N=3, sparse=True)
    add("u8", "UNIT", "A", N=4, rotated=True)
    add("u9", "UNIT", "A", N=2, gain=3.0, td_drift=True)
    add("u10", "UNIT", "A", N=4, dims=[[2, 2], [2, 2]], td_drift=True)
    add("u11", "UNIT", "B", N=4, dims=[[2, 2], [2, 2]], states=True)
    add("g1", "GEN_MAT", "A", N=2)
    add("g2", "GEN_MAT", "A", N=3, td_drift=True, td_ctrl=True)
    add("g3", "GEN_MAT", "B", N=3, states=True)
    add("g4", "GEN_MAT", "C", N=2)
    add("g5", "GEN_MAT", "D", N=3, td_ctrl=True, sparse=True)
    add("g6", "GEN_MAT", "A", N=2, phi="scalar", td_drift=True)
    add("g7", "GEN_MAT", "B", N=3, phi="matrix", td_ctrl=True)
    add("g8", "GEN_MAT", "A", N=4, dims=[[[2], [2]], [[2], [2]]])
    add("g9", "GEN_MAT", "C", N=6, dims=[[2, 3], [2, 3]], td_ctrl=True, sparse=True)
    add("s1", "SYMPL", "A", N=2)
    add("s2", "SYMPL", "B", N=4, td_drift=True)
    add("s3", "SYMPL", "D", N=4, td_ctrl=True)
    return P


def configs(p):
    """All configurations meaningful for a problem."""
    out = []
    fids = []
    if p.kind == "UNIT":
        fids = [("UNIT", {"phase_option": "PSU"}), ("UNIT", {"phase_option": "SU"}), ("DEF", None), ("TRACEDIFF", None)]
        props = ["DIAG", "FRECHET", "AUG_MAT", "DEF"]
    else:
        fids = [("TRACEDIFF", None), ("DEF", {"scale_factor": 0.7})]
        props = ["FRECHET", "AUG_MAT", "DEF"]
    default = "postop" if p.kind == "SYMPL" else "preop"
    sided = p.kind == "SYMPL" or p.phi is not None
    sides = ["postop", "preop", None] if sided else [None]
    mems = [0, 1] + ([2] if p.N > 2 else [])
    # a phase that is a matrix is given in the representation of the operators
    dtypes = [None, "ndarray", "Qobj"] if np.ndim(p.phi) == 0 else ["ndarray", "Qobj"]
    for dtype, mem, prop, fid, side in itertools.product(dtypes, mems, props, fids, sides):
        for cp, cg, ce in itertools.product([None, True, False], [None, True, False], [None, False]):
            i = len(out)
            out.append(dict(dtype=dtype, memory_optimization=mem, prop=prop, fid_type=fid[0], fid_params=fid[1],
                            container=("plain", "lists", "alternate")[i % 3], direct=(i % 5 == 4),
                            ham=(i % 5 == 4 and i % 2 == 1 and p.kind == "UNIT") or None,
                            log_level=(None, None, None, 5, 10, 15, 20)[i % 7],
                            unitarity_check_level=(None, None, None, None, 1, 2, None, None, 2, None, 0)[i % 11],
                            phase_application=side, cache_phased_dyn_gen=cp, cache_prop_grad=cg,
                            cache_dyn_gen_eigenvectors_adj=ce,
                            other_side=(sided and i % 4 == 2) or None,
                            default_side=default))
        if fid[0] == "TRACEDIFF" or p.kind != "UNIT":
            out.append(dict(dtype=dtype, memory_optimization=mem, prop="APPROX", fid_type="TDAPPROX", fid_params=fid[1],
                            phase_application=side, default_side=default))
    return out


def side_of(cfg, s):
    """Side of the phase for system variant s."""
    side = cfg.get("phase_application") or cfg.get("default_side") or "postop"
    if cfg.get("other_side") and s == 2:
        return "preop" if side == "postop" else "postop"
    return side


def reference_for(p, cfg, words, cache):
    """Interpretation of the words for every system variant under a configuration."""
    ref = {}
    for s in (1, 2):
        side = side_of(cfg, s)
        if (p.tag, side) not in cache:
            cache[p.tag, side] = p.reference(words, side)
        ref.update({k: v for k, v in cache[p.tag, side].items() if k[0] == s})
    return ref


def kind_of(p, cfg):
    f = cfg.get("fid_type", "DEF")
    if f == "TDAPPROX":
        return "approx"
    if f == "UNIT" or (f == "DEF" and p.kind == "UNIT"):
        return "unit"
    return "trace"
