"""P16: the timeslot grid (spec/Timeslots.tla)."""
import os
import numpy as np
from common import *
import evo

U = 0.05          # unit of time
SX = np.array([[0, 1], [1, 0]], dtype=complex)
SZ = np.diag([1.0, -1.0]).astype(complex)
H0 = 0.7 * SZ + 0.2 * SX
TOL = 2e-6        # equal durations are held in single precision


def grid_of(g):
    d = float(g["den"])
    return np.array(g["dur"]) * U / d, np.array(g["grid"]) * U / d, g["t"] * U


def amps_for(n, k):
    return np.random.RandomState(np_seed("tslots", n, k)).uniform(-2, 2, (n, 1))


def evolution(dur, amps):
    X = np.eye(2, dtype=complex)
    for k, t in enumerate(dur):
        X = evo.expm_ref(-1j * (H0 + amps[k, 0] * SX) * t) @ X
    return X


def dyn_kind(q):
    from qutip_qtrl import dynamics, optimconfig
    from qutip import Qobj
    d = dynamics.DynamicsUnitary(optimconfig.OptimConfig())
    d.drift_dyn_gen, d.ctrl_dyn_gen = Qobj(H0), [Qobj(SX)]
    d.initial, d.target = Qobj(np.eye(2)), Qobj(SX)
    return d


def container(q, u):
    v = [x * U for x in u]
    return q.choice([lambda: np.array(v), lambda: list(v), lambda: tuple(v), lambda: np.array(v)])()


def _work(job):
    recs, first, where = job
    from qutip_qtrl import pulseoptim as po, pulsegen, optimizer, termcond
    from qutip import Qobj
    dev = []
    for n, h in enumerate(recs):
        k = first + n
        q = rng("tslots", k)

        def rep(key, d):
            if len(dev) < 30:
                dev.append(("tslots:" + key, dict(detail=str(d)[:800], history=[(o["op"], o["v"], o["u"]) for o in h])))
        opt = None
        buf = None
        amps = None
        fails = None
        for o in h:
            op = o["op"]
            dur, grid, total = grid_of(o["g"])
            N = len(dur)
            try:
                if op == "bare":
                    dyn = dyn_kind(q)
                elif op in ("equal", "tau"):
                    kw = {}
                    if op == "equal":
                        kw = dict(num_tslots=o["u"][0], evo_time=o["v"] * U)
                    else:
                        kw = dict(tau=container(q, o["u"]))
                        if q.random() < 0.3:
                            kw.update(num_tslots=17, evo_time=3.5)      # durations win
                    opt = po.create_pulse_optimizer(Qobj(H0), [Qobj(SX)], Qobj(np.eye(2)), Qobj(SX), dyn_type="UNIT",
                                                    alg=q.choice(["GRAPE", "GRAPE", "CRAB"]), prop_type="DIAG", **kw)
                    dyn = opt.dynamics
                elif op in ("setN", "setT", "setTau", "clearTau"):
                    name = {"setN": "num_tslots", "setT": "evo_time"}.get(op, "tau")
                    if op == "setTau":
                        buf = val = container(q, o["u"])
                    else:
                        val = {"setN": o["v"], "setT": o["v"] * U, "clearTau": None}[op]
                    if op != "clearTau" and q.random() < 0.3:
                        dyn.apply_params({name: val})
                    else:
                        setattr(dyn, name, val)
                elif op == "scribble":
                    if isinstance(buf, (list, np.ndarray)):
                        for i in range(len(buf)):
                            buf[i] = 9.0 + i
                elif op == "num_tslots":
                    if dyn.num_tslots != N:
                        rep("num_tslots", "%r want %d" % (dyn.num_tslots, N))
                elif op == "evo_time":
                    if not evo.close(dyn.evo_time, total, TOL):
                        rep("evo_time", "%r want %r" % (dyn.evo_time, total))
                elif op == "durations":
                    if not evo.close(dyn.tau, dur, TOL):
                        rep("tau", "%r want %r" % (dyn.tau, dur))
                elif op == "init_timeslots":
                    dyn.init_timeslots()
                elif op == "amp_times":
                    t = dyn.get_amp_times()
                    if not evo.close(t, grid[:-1], TOL):
                        rep("amp_times", "%r want %r" % (t, grid[:-1]))
                elif op == "pulse":
                    t = q.choice(["LIN", "SINE", "GAUSSIAN"])
                    g = pulsegen.create_pulse_gen(t, dyn)
                    if t == "LIN":
                        got, want = g.gen_pulse(gradient=1.0, start_val=0.0), grid[:-1]
                    elif t == "SINE":
                        got, want = g.gen_pulse(num_waves=1), np.sin(2 * np.pi * grid[:-1] / total)
                    else:
                        m, s = 0.4 * total, 0.3 * total
                        got, want = g.gen_pulse(mean=m, variance=s * s), np.exp(-(grid[:-1] - m) ** 2 / (2 * s * s))
                    # scaling and offset of a new dynamics are one and zero
                    if np.shape(got) != (N,) or not evo.close(got, want, 1e-5):
                        rep("pulse-" + t, "%r want %r" % (got, want))
                elif op == "controls":
                    amps = amps_for(N, k)
                    dyn.initialize_controls(amps.copy(), init_tslots=bool(o["v"]))
                    X = evo.full(dyn.full_evo) if False else None
                    dyn.compute_evolution()
                    if not evo.close(evo.full(dyn.full_evo), evolution(dur, amps), TOL):
                        rep("evolution", "")
                    if len(dyn.prop) != N or len(dyn.fwd_evo) != N + 1:
                        rep("evolution-length", "%d %d" % (len(dyn.prop), len(dyn.fwd_evo)))
                elif op == "run":
                    ob = optimizer.OptimizerLBFGSB(dyn.config, dyn)
                    tc = termcond.TerminationConditions()
                    tc.fid_err_targ = 1e9
                    r = ob.run_optimization(tc)
                    if not evo.close(r.time, grid, TOL) or np.shape(r.final_amps) != (N, 1):
                        rep("result-time", "%r want %r" % (r.time, grid))
                    if not evo.close(evo.full(r.evo_full_final), evolution(dur, amps), TOL):
                        rep("result-evolution", "")
                    r.time[:] = -1
                elif op == "save":
                    f = os.path.join(where, "a%d.txt" % os.getpid())
                    dyn.save_amps(f)
                    A = np.loadtxt(f, ndmin=2)
                    os.unlink(f)
                    if A.shape != (N, 2) or not evo.close(A[:, 0], grid[:-1], 1e-5) or not evo.close(A[:, 1], amps[:, 0], 1e-5):
                        rep("saved", A.tolist())
            except Exception:
                rep(op + "-raises", short_tb())
                break
            fails = None
        else:
            # everything agrees at the end, whichever is read first
            try:
                R = [("num_tslots", lambda: dyn.num_tslots == N), ("evo_time", lambda: evo.close(dyn.evo_time, total, TOL)),
                     ("tau", lambda: evo.close(dyn.tau, dur, TOL)), ("time", lambda: evo.close(dyn.time, grid, TOL)),
                     ("sum", lambda: evo.close(np.sum(dyn.tau), dyn.evo_time, TOL))]
                head = R[:3]
                q.shuffle(head)
                for nm, f in head + R[3:]:
                    if not f():
                        rep("final-" + nm, "%r %r %r %r" % (dyn.num_tslots, dyn.evo_time, dyn.tau, dyn.time))
            except Exception:
                rep("final-raises", short_tb())
    return len(recs), dev


def run(pid):
    thorough = TIER == "thorough"
    import_repo()
    ck = Check(pid)
    inv = ["TypeOK", "Consistent", "LastWins"]
    base = dict(Ns={1, 3, 4}, Ts={4, 10}, Taus={(2, 3, 1), (5,), (1, 1, 2, 4)}, DefN=10, DefT=20, Sources={"bare", "equal", "tau"})
    a = run_tlc("Timeslots", dict(base, MaxOps=5 if thorough else 4), invariants=inv, properties=["LooksPure"], emit="Emit")
    ck.tlc(a, "Timeslots exhaustive")
    b = run_tlc("Timeslots", dict(base, Ns={1, 2, 3, 5, 8}, Ts={3, 7, 20}, Taus={(2, 3, 1), (5,), (1, 1, 2, 4), (7, 1), (1, 1, 1)}, MaxOps=9),
                invariants=inv, emit="Emit", simulate=40000 if thorough else 5000, depth=10, workers=1)
    ck.tlc(b, "Timeslots simulated")
    key = lambda h: json.dumps(h)
    A, B = sorted(a.emitted, key=key), sorted(b.emitted, key=key)
    r = rng("tslots")
    A = r.sample(A, min(len(A), 200000 if thorough else 20000))
    B = r.sample(B, min(len(B), 100000 if thorough else 10000))
    recs = A + B
    ck.sample({"history": [(o["op"], o["v"], o["u"]) for o in B[0]]})
    where = scratch()
    for n, dev in pmap(_work, [(recs[k:k + 250], k, where) for k in range(0, len(recs), 250)], chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    ck.assumptions.append("equal durations are held in single precision, so grids are compared to 2e-6")
    ck.assumptions.append("defaults before anything was set: %d slots, total time 1" % 10)
    return ck
