"""P21: files of amplitudes (spec/SaveAmps.tla)."""
import os, pathlib, shutil, tempfile
import numpy as np
from common import *
import evo

X = np.array([[0, 1], [1, 0]], complex)
Y = np.array([[0, -1j], [1j, 0]])
Z = np.diag([1.0, -1.0]).astype(complex)
ENTRIES = ("general", "unitary", "crab", "crabunit")


def table(fn):
    """Rows of a file as numbers; the columns must be separated by tabs or blanks."""
    with open(fn) as f:
        rows = [[float(x) for x in line.split()] for line in f if line.strip()]
    return rows


def same(rows, want):
    want = np.asarray(want, dtype=float)
    if len(rows) != len(want) or any(len(r) != want.shape[1] for r in rows):
        return False
    A = np.array(rows, dtype=float).reshape(want.shape)
    return bool(np.all(np.abs(A - want) <= 5.2e-6 * np.abs(want) + 1e-12))


def _work(job):
    recs, first, root = job
    from qutip_qtrl import pulseoptim as po, dynamics, optimconfig
    from qutip import Qobj
    dev = []
    home = os.getcwd()
    for n, h in enumerate(recs):
        q = rng("save", first + n)
        g = np.random.RandomState(np_seed("save", first + n))
        N, J = q.choice([1, 2, 3, 5, 8]), q.choice([1, 1, 2, 3])
        where = tempfile.mkdtemp(prefix="amps-", dir=root)
        os.chdir(where)
        ctrls = [X, Z, Y][:J]

        def rep(key, d):
            if len(dev) < 30:
                dev.append(("save:" + key, dict(detail=str(d)[:700], N=N, J=J,
                                                history=[{k: v for k, v in o.items() if k not in ("files", "cur") and v not in ("none", 0)} for o in h])))
        try:
            P, T = {}, {}
            d = dynamics.DynamicsUnitary(optimconfig.OptimConfig())
            d.drift_dyn_gen, d.ctrl_dyn_gen = Qobj(0.5 * Z), [Qobj(c) for c in ctrls]
            d.initial, d.target = Qobj(np.eye(2)), Qobj(X)
            if q.random() < 0.5:
                d.num_tslots, d.evo_time = N, 1.7
                grid = np.arange(N) * 1.7 / N
            else:
                tau = g.uniform(0.1, 0.9, N)
                d.tau = tau
                grid = np.concatenate([[0], np.cumsum(tau)[:-1]])

            def amps(rows, whole=False):
                s = q.choice([1.0, 1.0, 1e-4, 3000.0])
                a = s * g.uniform(-1, 1, (rows, J))
                if q.random() < 0.15:
                    a = np.round(3 * a / s)
                    # whole numbers need not be floats
                    return a.astype(int) if whole and q.random() < 0.7 else a
                return a
            before = {}
            for o in h:
                op = o["op"]
                if op == "pulse":
                    P[o["p"]] = a = amps(N)
                    if o["how"] == "set":
                        d.initialize_controls(a.copy())
                    else:
                        d.update_ctrl_amps(a.copy())
                elif op == "default":
                    d.def_amps_fname = o["n"]
                elif op == "early":
                    try:
                        d.save_amps(None if o["n"] == "none" else o["n"], times=None if o["t"] == "none" else o["t"])
                        rep("early-accepted", "")
                    except Exception as e:
                        if not isinstance(e, RuntimeError):
                            from qutip_qtrl import errors
                            if not isinstance(e, errors.UsageError):
                                rep("early-%s" % type(e).__name__, e)
                elif op == "save":
                    kw = {}
                    rows = N if o["a"] != "shorter" else q.choice([k for k in (1, 2, 4, 7) if k != N])
                    if o["a"] != "none":
                        P[o["p"]] = amps(rows, whole=True)
                        kw["amps"] = P[o["p"]].copy()
                    if o["n"] != "none" or q.random() < 0.3:
                        f = None if o["n"] == "none" else o["n"]
                        kw["file_name"] = q.choice([f, f, os.path.join(where, f), pathlib.Path(f)]) if f else None
                    if o["t"] == "given":
                        t = np.cumsum(g.uniform(0.1, 1, rows))
                        T[o["p"], "t"] = t
                        kw["times"] = q.choice([t, t.tolist()])
                    elif o["t"] != "none" or q.random() < 0.3:
                        kw["times"] = None if o["t"] == "none" else {"exclude": q.choice(["exclude", "Exclude"]), "EXCLUDE": "EXCLUDE", "bogus": "sometimes"}[o["t"]]
                    if q.random() < 0.3:
                        kw["verbose"] = q.random() < 0.7
                    frozen = np.array(d.ctrl_amps)
                    d.save_amps(**kw)
                    if not np.array_equal(frozen, d.ctrl_amps):
                        rep("pulse-changed", kw)
                    nm = o["n"] if o["n"] != "none" else d.def_amps_fname
                    T[nm] = T.get((o["p"], "t"))
                elif op == "run":
                    e = o["how"]
                    un = e in ("unitary", "crabunit")
                    kw = dict(zip(("H_d", "H_c", "U_0", "U_targ") if un else ("drift", "ctrls", "initial", "target"),
                                  (Qobj(0.5 * Z), [Qobj(c) for c in ctrls], Qobj(np.eye(2)), Qobj(q.choice([X, Y])))))
                    n_, t_ = q.choice([2, 3, 6]), q.choice([1.0, 3.0])
                    if q.random() < 0.5:
                        kw.update(num_tslots=n_, evo_time=t_)
                    else:
                        kw.update(tau=g.uniform(0.2, 1, n_))
                    kw.update(max_iter=q.choice([0, 1, 3, 20]) if e not in ("crab", "crabunit") else q.choice([1, 3, 20]), max_wall_time=q.choice([0.0, 60]),
                              fid_err_targ=q.choice([1e-6, 2.0, 0.3]))
                    if q.random() < 0.4:
                        kw.update(amp_lbound=-0.4, amp_ubound=0.6)
                    if not un:
                        kw["dyn_type"] = "UNIT"
                    if q.random() < 0.3:
                        kw["gen_stats"] = True
                    if o["ext"] != "none" or q.random() < 0.3:
                        kw["out_file_ext"] = None if o["ext"] == "none" else o["ext"]
                    if e in ("general", "unitary") and q.random() < 0.2:
                        kw["alg"] = "CRAB"
                        kw["max_iter"] = max(1, kw["max_iter"])
                    np.random.seed(q.randrange(2 ** 31))
                    f = {"general": po.optimize_pulse, "unitary": po.optimize_pulse_unitary, "crab": po.opt_pulse_crab, "crabunit": po.opt_pulse_crab_unitary}[e]
                    res = f(**kw)
                    P[o["p"]], P[o["p"] + 1] = np.array(res.initial_amps), np.array(res.final_amps)
                    G = np.array(res.time[:-1])
                    for w in ("initial", "final"):
                        T["ctrl_amps_%s_%s" % (w, o["ext"])] = G
                    if "tau" in kw:
                        ref = np.concatenate([[0], np.cumsum(kw["tau"])[:-1]])
                    else:
                        ref = np.arange(n_) * t_ / n_
                    if not evo.close(G, ref, 1e-5):
                        rep("result-times", (G, ref))
                    P[o["p"]].setflags(write=False)
                    if P[o["p"]].shape != (n_, J) or P[o["p"] + 1].shape != (n_, J):
                        rep("result-shape", P[o["p"]].shape)
                have = sorted(os.listdir(where))
                want = o["files"] if isinstance(o["files"], dict) else {}
                if have != sorted(want):
                    rep("files-%s" % op, "%r, want %r" % (have, sorted(want)))
                    break
                bad = False
                for nm, c in want.items():
                    rows = table(nm)
                    a = P[c["p"]]
                    if c["t"] == "out":
                        w = a
                    else:
                        t = T.get(nm)
                        w = np.hstack([np.reshape(grid if t is None or (c["t"] == "grid" and not nm.startswith("ctrl_amps_i") and not nm.startswith("ctrl_amps_f")) else t, (-1, 1)), a])
                    if not same(rows, w):
                        rep("content-%s" % op, "%s: %r, want %r" % (nm, rows[:3], np.asarray(w)[:3].tolist()))
                        bad = True
                if bad:
                    break
        except Exception:
            rep("raises", short_tb())
        finally:
            os.chdir(home)
            shutil.rmtree(where, ignore_errors=True)
    return len(recs), dev


def run(pid):
    thorough = TIER == "thorough"
    import_repo()
    ck = Check(pid)
    inv = ["TypeOK", "LastWriter", "Current"]
    base = dict(Names={"a.txt", "b.dat"}, DefNames={"pulse.txt", "ctrl_amps.txt"}, Exts={"x.txt", "", "b.dat"}, Entries=set(ENTRIES))
    a = run_tlc("SaveAmps", dict(base, Names={"a.txt"}, DefNames={"pulse.txt"}, Exts={"x.txt"}, Simulated=False, MaxOps=4 if thorough else 3), invariants=inv, properties=["Quiet"], emit="Emit")
    ck.tlc(a, "SaveAmps exhaustive")
    b = run_tlc("SaveAmps", dict(base, Simulated=True, MaxOps=9), invariants=inv, emit="Emit", simulate=30000 if thorough else 3000, depth=10, workers=1)
    ck.tlc(b, "SaveAmps simulated")
    A, B = sorted(a.emitted, key=json.dumps), sorted(b.emitted, key=json.dumps)
    r = rng("save")
    A = r.sample(A, min(len(A), 60000 if thorough else 5000))
    B = r.sample(B, min(len(B), 30000 if thorough else 3000))
    recs = A + B
    ck.sample({"history": [{k: v for k, v in o.items() if k not in ("files", "cur")} for o in B[0]], "files": B[0][-1]["files"]})
    where = scratch()
    for n, dev in pmap(_work, [(recs[k:k + 100], k, where) for k in range(0, len(recs), 100)], chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    ck.assumptions.append("numbers are compared to the six digits that are written; what happens when a file cannot be written is left open")
    return ck
