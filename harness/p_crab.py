"""P15: CRAB pulses (spec/Crab.tla, spec/CrabVars.tla)."""
import math
import numpy as np
from common import *
import optim, evo

NS = 6


def vec(tag, n):
    return np.random.RandomState(np_seed("crabvec", tag, n)).uniform(-1.5, 1.5, n)


def material(k):
    r = np.random.RandomState(np_seed("crabmat", k))
    tau = np.full(NS, 0.25) if k % 2 else np.round(r.uniform(0.1, 0.5, NS), 4)
    return dict(tau=tau, guess=np.round(r.uniform(-2, 3, NS), 4), ramp=np.round(r.uniform(0, 1, NS), 4),
                scale=[1.0, 0.5, 2.5][k % 3])


def limval(b, sign):
    return {"none": None, "inf": sign * math.inf}.get(b[0], b[1] / 10.0)


def dyn_for(dim, tau, k):
    from qutip_qtrl import dynamics, optimconfig
    from qutip import Qobj
    d = dynamics.DynamicsUnitary(optimconfig.OptimConfig())
    H = np.diag(np.arange(dim)).astype(complex)
    d.drift_dyn_gen, d.ctrl_dyn_gen = Qobj(H), [Qobj(H[::-1])]
    d.initial, d.target = Qobj(np.eye(dim)), Qobj(np.eye(dim))
    if len(set(tau)) == 1:
        d.num_tslots, d.evo_time = len(tau), float(sum(tau))
    else:
        d.tau = np.array(tau)
    return d


def stages(out, coeffs, freqs, m, lo, up, ncoef):
    """Evaluate the specified stages."""
    t = np.concatenate([[0], np.cumsum(m["tau"])[:-1]])
    for s in out:
        if s["op"] == "sum":
            f = freqs if s["freq"] == "harmonic" else coeffs[:, 2]
            x = sum(coeffs[i, 0] * np.sin(f[i] * t) + coeffs[i, 1] * np.cos(f[i] * t) for i in range(len(coeffs)))
        elif s["op"] == "modulate":
            x = (1 + x) * m["guess"]
        elif s["op"] == "add":
            x = x + m["guess"]
        elif s["op"] == "ramp":
            x = x * m["ramp"]
        elif s["op"] == "both":
            x = np.tanh(x) * (up - lo) / 2 + (up + lo) / 2
        elif s["op"] == "upper":
            x = np.where(x > 0, np.tanh(x) * up, x)
        elif s["op"] == "lower":
            x = np.where(x < 0, np.tanh(x) * -lo, x)
        else:
            # the part of the pulse that is moved depends on the extent of the guess pulse
            return None, x
    return x, x


def _life(job):
    recs, first = job
    from qutip_qtrl import pulsegen
    dev, nout = [], 0
    for n, rec in enumerate(recs):
        c, h = rec["c"], rec["h"]
        k = first + n
        m = material(k)

        def rep(key, d):
            if len(dev) < 30:
                dev.append(("crab:%s" % key, dict(detail=d, cfg=c, history=[(o["op"], o["nc"], o["v"]) for o in h])))
        lo, up = limval(c["lim"][0], -1), limval(c["lim"][1], 1)
        at = dict(randomize_coeffs=c["rndc"], randomize_freqs=c["rndf"], guess_pulse_action=c["action"])
        if c["guess"]:
            at["guess_pulse"] = np.array(m["guess"])
        if c["ramp"]:
            at["ramping_pulse"] = np.array(m["ramp"])
        at.update(lbound=lo, ubound=up, scaling=m["scale"])
        try:
            dyn = None
            params = {}
            if c["dim"]:
                dyn = dyn_for(c["dim"], m["tau"], k)
            else:
                params["tau"] = np.array(m["tau"])
            if c["via"] == "params":
                params.update(at)
            g = pulsegen.PulseGenCrabFourier(dyn, num_coeffs=c["nc"] or None, params=params or None, fix_freqs=c["fix"])
            if c["via"] == "attrs":
                for a, v in at.items():
                    setattr(g, a, v)
        except Exception:
            rep("create-raises", short_tb())
            continue
        cur, fr = None, None
        basis = 2 if c["fix"] else 3
        for o in h:
            V = vec(o["v"], o["len"]) if o["v"] else None
            try:
                if o["op"] == "init":
                    kw = {}
                    if o["nc"]:
                        kw["num_coeffs"] = o["nc"]
                    if V is not None:
                        kw["init_coeffs"] = V.copy()
                    g.init_pulse(**kw)
                elif o["op"] == "set":
                    g.set_optim_var_vals(V.copy())
                elif o["op"] == "gen":
                    got = g.gen_pulse()
                elif o["op"] == "genwith":
                    got = g.gen_pulse(V.copy().reshape(-1, basis))
                else:
                    g.reset()
            except Exception:
                rep(o["op"] + "-raises", short_tb())
                break
            if not o["ready"]:
                continue
            if g.num_coeffs != o["ncs"] or g.num_optim_vars != o["len"]:
                rep("number-of-coefficients", "%s variables %s want %s" % (g.num_coeffs, g.num_optim_vars, (o["ncs"], o["len"])))
                break
            back = np.array(g.get_optim_var_vals(), dtype=float)
            if back.shape != (o["len"],):
                rep("vector-length", back.shape)
                break
            want = vec(o["src"], o["len"]) if o["src"] else None
            if want is not None:
                if not np.array_equal(back, want):
                    rep("read-back", (o["op"], back, want))
            elif o["op"] in ("init", "gen"):
                sc = g.scaling
                if o["rndc"]:
                    if np.max(np.abs(back)) > abs(sc) + 1e-12 or len(set(back)) < len(back):
                        rep("random-coefficients", back)
                elif not np.all(back == sc):
                    rep("flat-coefficients", back)
            freqs = np.array(g.freqs, dtype=float)
            T = float(np.sum(m["tau"]))
            H = 2 * np.pi * np.arange(1, o["ncs"] + 1) / T
            if freqs.shape != H.shape or np.max(np.abs(freqs - H)) > (0.5 if o["rndf"] else 0) + 1e-5 * H[-1]:
                rep("frequencies", (freqs, H))
                break
            if o["rndf"] and len(H) > 1 and np.max(np.abs(freqs - H)) < 1e-5 * H[-1]:
                rep("frequencies-not-randomised", (freqs, H))
            if o["op"] in ("gen", "genwith"):
                nout += 1
                lo, up = limval(o["lo"], -1), limval(o["up"], 1)
                x, free = stages(o["out"], back.reshape(-1, basis), freqs, m, lo, up, o["ncs"])
                if np.shape(got) != (NS,) or not np.all(np.isfinite(got)):
                    rep("shape", got)
                    break
                if (lo is not None and min(got) < lo - 1e-9) or (up is not None and max(got) > up + 1e-9):
                    rep("outside-bounds", (got, lo, up))
                if x is not None and np.max(np.abs(got - x)) > 1e-5 * (1 + np.max(np.abs(x))):
                    rep("values-" + "-".join(s["op"] for s in o["out"]), (got, x))
                if x is None:
                    # far from the bound the pulse is left alone
                    keep = free < up - 40 if o["out"][-1]["op"] == "upper-low" else free > lo + 40
                    if np.any(keep) and np.max(np.abs((got - free)[keep])) > 1e-5 * (1 + np.max(np.abs(free))):
                        rep("values-away-from-bound", (got, free))
                try:
                    g2 = g.gen_pulse()
                    if not np.array_equal(g2, got):
                        rep("not-repeatable", (got, g2))
                    got[:] = 77.0
                    if np.array_equal(g.get_optim_var_vals(), back) is False:
                        rep("generation-changed-coefficients", "")
                except Exception:
                    rep("regenerate-raises", short_tb())
                    break
    return nout, dev


class Stop(BaseException):
    pass


def _vars(job):
    recs, first = job
    import scipy.optimize as so
    from qutip_qtrl import pulseoptim, pulsegen
    dev = []
    for n, rec in enumerate(recs):
        ncs, lay = rec["ncs"], rec["lay"]
        k = first + n
        r = rng("crabvars", k)
        r2 = np.random.RandomState(np_seed("crabvars", k))
        fmin = r.random() < 0.5

        def rep(key, d):
            if len(dev) < 20:
                dev.append(("crabvars:%s" % key, dict(detail=d, rec=rec, fmin=fmin)))
        H = [np.array([[1, 0], [0, -1]]), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])]
        seen = {}

        def body(fun, x0):
            seen["x0"] = np.array(x0)
            if seen["x0"].shape != (rec["total"],):
                rep("number-of-variables", seen["x0"].shape)
                raise Stop()
            amps0 = seen["amps0"]
            for o in rec["h"]:
                w = o["w"]
                if o["op"] == "direct":
                    seen["dyn"].update_ctrl_amps(r2.uniform(-3, 3, amps0.shape))
                    continue
                x = seen["x0"].copy()
                for j, v in enumerate(w):
                    a, b = lay[j]
                    if v:
                        x[a:b] = vec(("block", v, j), b - a)
                buf = x.copy()
                fun(buf)
                A = np.array(seen["dyn"].ctrl_amps)
                for j, v in enumerate(w):
                    a, b = lay[j]
                    g = seen["gens"][j]
                    if not np.array_equal(np.ravel(g.get_optim_var_vals()), x[a:b]):
                        rep("block", (j, g.get_optim_var_vals(), x[a:b]))
                    t = np.concatenate([[0], np.cumsum(seen["dyn"].tau)[:-1]])
                    C = x[a:b].reshape(ncs[j], -1)
                    f = g.freqs if rec["fix"] else C[:, 2]
                    want = sum(C[i, 0] * np.sin(f[i] * t) + C[i, 1] * np.cos(f[i] * t) for i in range(ncs[j]))
                    if np.max(np.abs(A[:, j] - want)) > 1e-5 * (1 + np.max(np.abs(want))):
                        rep("amplitudes", (j, A[:, j], want))
                    if not v and not np.allclose(A[:, j], amps0[:, j]):
                        rep("other-control-changed", (j, A[:, j], amps0[:, j]))
            raise Stop()

        def fake_min(fun, x0, *a, **kw):
            body(fun, x0)

        subs = [(so.minimize, fake_min), (so.fmin, lambda func, x0, *a, **kw: body(func, x0))]
        with optim.Patch(subs):
            try:
                opt = pulseoptim.create_pulse_optimizer(
                    evo.q(H[0]), [evo.q(H[(j + 1) % 3]) for j in range(len(ncs))], evo.q(np.eye(2)), evo.q(H[1]),
                    num_tslots=5, evo_time=2.0, alg="CRAB" if k % 2 else "crab", dyn_type="UNIT", prop_type="DEF",
                    optim_method="DEF" if fmin else "Powell", fid_err_targ=-1.0,
                    alg_params=dict(num_coeffs=ncs[0], fix_frequency=rec["fix"]))
                dyn = opt.dynamics
                for j, g in enumerate(opt.pulse_generator):
                    g.num_coeffs = ncs[j]
                    g.init_pulse()
                dyn.initialize_controls(np.column_stack([g.gen_pulse() for g in opt.pulse_generator]))
                seen["amps0"] = dyn.ctrl_amps.copy()
                if k % 3 == 1:
                    dyn.initialize_controls(r2.uniform(-3, 3, dyn.ctrl_amps.shape))
                seen.update(dyn=dyn, gens=opt.pulse_generator)
                opt.run_optimization()
            except Stop:
                continue
            except Exception:
                rep("raises", short_tb())
                continue
        if "x0" not in seen:
            raise RuntimeError("no scripted minimiser was called")
    return len(recs), dev


def L(x):
    return ("none", 0) if x is None else ("inf", 0) if x == "inf" else ("at", x)


def run(pid):
    thorough = TIER == "thorough"
    ck = Check(pid)
    lims = [(None, None), ("inf", "inf"), (-5, 7), (None, 4), (None, -3), (None, 0), ("inf", 6), (-4, None), (3, None), (0, None),
            (-6, "inf"), (0, 5), (-5, 0), (2, 2), (2, 9)]
    LS = Raw("{" + ", ".join(tla_val((L(a), L(b))) for a, b in lims) + "}")
    r = rng("crab-cfgs")

    def cfgs(n):
        out = []
        for _ in range(n):
            a, b = r.choice(lims)
            out.append(tla_val(dict(dim=r.choice([0, 2, 3, 4, 6]), nc=r.choice([0, 0, 1, 2, 3]), fix=r.random() < 0.6,
                                    guess=r.random() < 0.6, action=r.choice(["MODULATE", "modulate", "ADD", "Add", "", "BLEND"]),
                                    ramp=r.random() < 0.5, lim=(L(a), L(b)), rndc=r.random() < 0.5, rndf=r.random() < 0.5,
                                    via=r.choice(["params", "attrs"]))))
        return Raw("{" + ",\n".join(sorted(set(out))) + "}")
    base = dict(Dims={0, 2, 3, 4, 6}, NCs={0, 1, 3}, Lims=LS, Vecs={1, 2})
    inv = ["TypeOK", "StagesOrdered", "ReadBack"]
    a = run_tlc("Crab", dict(base, Cfgs=cfgs(600 if thorough else 150), MaxOps=3), invariants=inv, properties=["Stable"], emit="Emit")
    ck.tlc(a, "Crab exhaustive")
    b = run_tlc("Crab", dict(base, Cfgs=cfgs(3000), MaxOps=7), invariants=inv, emit="Emit",
                simulate=30000 if thorough else 3000, depth=8, workers=1)
    ck.tlc(b, "Crab simulated")
    A = a.emitted if thorough else rng("crab").sample(a.emitted, min(4000, len(a.emitted)))
    B = b.emitted if thorough else rng("crab-sim").sample(b.emitted, min(9000, len(b.emitted)))
    recs = A + B
    ck.sample({"crab": b.emitted[0]})
    n = 0
    for m, dev in pmap(_life, [(recs[k:k + 300], k) for k in range(0, len(recs), 300)], chunk=1):
        n += m
        for k, d in dev:
            ck.viol(k, d)
    ck.traces(len(recs))
    ck.count("pulses_compared", n)
    v = run_tlc("CrabVars", dict(MaxCtrls=3, NCs={1, 2, 3}, Vecs={1, 2}, MaxEv=3), invariants=["TypeOK", "Partition", "EvalDecides"], emit="Emit")
    ck.tlc(v, "CrabVars")
    V = v.emitted if thorough else rng("crabv").sample(v.emitted, min(800, len(v.emitted)))
    ck.sample({"variables": V[0]})
    for m, dev in pmap(_vars, [(V[k:k + 50], k) for k in range(0, len(V), 50)], chunk=1):
        ck.traces(m)
        for k, d in dev:
            ck.viol(k, d)
    ck.assumptions.append("with one bound on the far side of zero only the limit itself and the part of the pulse far from it are compared")
    return ck
