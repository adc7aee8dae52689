"""P20: the stand-alone gradient ascent routines (spec/Grape.tla, spec/GrapeTrace.tla)."""
import itertools
import numpy as np
from common import *
import evo

SC, OSC = 1e6, 1e8
INNER = "U u r J M U_b_list U_f_list H_ops dt eps alpha beta phase_sensitive use_u_limits u_min u_max".split()
I = lambda x: int(round(SC * float(x)))


# ----------------------------------------------------------- replay of Grape.tla
def _inner(job):
    """The update rule on real data: gradients of any value are made from propagators."""
    recs, first = job
    import importlib
    import inspect
    import qutip.core.data as _data
    # the routine is internal: another shape of it is not judged here (the recordings of the
    # public functions judge the update rule too)
    try:
        inner = importlib.import_module("qutip_qtrl.cy_grape").cy_grape_inner
        same = set(inspect.signature(inner).parameters) == set(INNER)
    except Exception:
        same = False
    if not same:
        return 0, []
    dev = []
    for n, h in enumerate(recs):
        q = rng("grape-inner", first + n)
        c, us, gs = h["c"], h["us"], h["gs"]
        J, M, lim = c["J"], c["M"], c["lim"]
        d = J
        R = len(us)
        dt, flip = float(c["dt"]), q.random() < 0.5
        u = np.zeros((R, J, M))
        u[0] = us[0]
        D = lambda a: _data.Dense(np.asarray(a, dtype=complex))
        perm = np.eye(d)[q.sample(range(d), d)]
        ph = np.diag(np.exp(2j * np.pi * np.array([q.random() for _ in range(d)])))
        W = perm @ ph
        H = [D(d * W @ np.outer(np.eye(d)[j], np.eye(d)[j]) @ W.conj().T) for j in range(J)]
        try:
            for r in range(R - 1):
                Uf = [D(1j / dt * W @ np.diag([gs[r][j][m] for j in range(J)]) @ W.conj().T) for m in range(M - 1)]
                Ub = [D(np.eye(d)) for _ in range(M - 1)]
                inner(**dict(zip(INNER, (D(np.eye(d)), u, r, J, M, Ub, Uf, H, dt, float(c["e"]), float(c["a"]), float(c["b"]), True,
                                         1 if lim else 0, float(lim[0]) if lim else 0.0, float(lim[1]) if lim else 0.0))))
                if not np.allclose(u[r + 1], us[r + 1], rtol=0, atol=1e-9):
                    dev.append(("grape:update", dict(c=c, iteration=r, got=u[r + 1].tolist(), want=us[r + 1], grad=gs[r], u=us[r])))
                    break
                if not np.array_equal(np.round(u[:r + 1]), us[:r + 1]):
                    dev.append(("grape:earlier-pulse-changed", dict(c=c, iteration=r)))
                    break
                u[r + 1] = us[r + 1]
        except Exception:
            dev.append(("grape:inner-raises", dict(c=c, detail=short_tb())))
    return len(recs), dev[:20]


# ------------------------------------------------------------------- recordings
PAULI = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1]).astype(complex)]


def herm(g, d):
    A = g.normal(size=(d, d)) + 1j * g.normal(size=(d, d))
    return (A + A.conj().T) / 2


def unitary_of(H, dt):
    return evo.expm_ref(-1j * H * dt)


def system(q, g):
    from qutip import Qobj
    d = q.choice([2, 2, 2, 3, 4])
    dims = [[2, 2], [2, 2]] if d == 4 and q.random() < 0.7 else [[d], [d]]
    J = q.choice([1, 2, 2, 3])
    M = q.choice([2, 3, 4, 5, 6])
    Hs = [herm(g, d) if d != 2 or q.random() < 0.5 else PAULI[q.randrange(3)] for _ in range(J)]
    H0 = q.choice([0.0, 0.5, 1.0]) * herm(g, d)
    k = q.random()
    V = np.linalg.qr(g.normal(size=(d, d)) + 1j * g.normal(size=(d, d)))[0]
    if k < 0.4:
        # a target near what the start gives, so that gradients are not noise
        V = unitary_of(sum(Hs) + H0, 0.7)
    mk = lambda m: Qobj(m, dims=dims)
    return d, J, M, H0, Hs, V, mk


def gradient(V, H0, Hs, u, dt, ps):
    """Step-free gradient of every slot, the total unitary and the overlap."""
    J, M = u.shape
    d = len(V)
    P = [unitary_of(H0 + sum(u[j, m] * Hs[j] for j in range(J)), dt) for m in range(M - 1)]
    F = [np.eye(d, dtype=complex)]
    for p in P:
        F.append(p @ F[-1])
    B = [None] * M
    B[M - 1] = np.eye(d, dtype=complex)
    for m in range(M - 2, 0, -1):
        B[m] = B[m + 1] @ P[m]
    ov = np.trace(F[-1].conj().T @ V) / d          # <X|V>
    out = np.zeros((J, M - 1))
    for m in range(M - 1):
        for j in range(J):
            # change of the overlap when the generator acts at the end of slot m
            dX = B[m + 1] @ (-1j * dt * Hs[j]) @ F[m + 1]
            t = np.trace(V.conj().T @ dX) / d
            out[j, m] = t.real if ps else 2 * (t * ov).real
    fid = np.trace(F[-1].conj().T @ V) / d
    return out, F[-1], (fid.real if ps else abs(fid) ** 2)


def _record(job):
    k0, n = job
    from qutip_qtrl import grape
    recs, dev, skipped = [], [], 0
    for k in range(k0, k0 + n):
        q = rng("grape-rec", k)
        g = np.random.RandomState(np_seed("grape-rec", k))
        d, J, M, H0, Hs, V, mk = system(q, g)
        kind = q.choice(["grape_unitary", "cy_grape_unitary", "grape_unitary_adaptive"])
        R = q.choice([1, 2, 2, 3, 4, 5])
        t0 = q.choice([0.0, 0.0, 0.0, 0.5])
        T = q.choice([0.5, 1.0, 3.0, 2 * np.pi])
        times = t0 + np.linspace(0, T, M)
        kw = {}
        eps = q.choice([None, 0.05, 0.3, 1.0])
        lim = q.choice([None, None, [-0.5, 0.5], (-1.0, 0.2), [0.1, 0.4], [-2.0, -0.3], [0.0, 1.0], [-0.4, 0.0], []])
        how = q.choice(["none", "array", "list", "rows", "scalars", "array", "int"])
        base = g.uniform(-1, 1, (J, M))
        start = {"none": None, "array": base, "list": base.tolist(), "rows": [np.array(b) for b in base], "scalars": [float(b[0]) for b in base],
                 "int": np.array(np.round(2 * base), dtype=int)}[how]
        eff = np.zeros((J, M)) if start is None else np.array([np.broadcast_to(np.array(s, dtype=float), (M,)) for s in start])
        alpha, beta = q.choice([None, None, 0, 0.1, 0.5]), q.choice([None, None, 0, 0.02, 0.1])
        ps = q.random() < 0.5
        interp = q.random() < 0.3
        if interp:
            kw.update(use_interp=True)
            ik = q.choice(["linear", "nearest"] + (["cubic"] if M >= 4 else []))
            if ik != "linear" or q.random() < 0.5:
                kw.update(interp_kind=ik)
        for a, v in (("eps", eps), ("u_limits", lim), ("u_start", start), ("alpha", alpha), ("beta", beta)):
            if v is not None or q.random() < 0.2:
                kw[a] = v
        goal = 1.0
        if kind == "grape_unitary_adaptive":
            if ps or q.random() < 0.3:
                kw["phase_sensitive"] = ps
            if q.random() < 0.4:
                kw["overlap_terminate"] = goal = q.choice([0.0, 0.2, 0.6, 0.9, 0.99])
        elif not ps or q.random() < 0.3:
            kw["phase_sensitive"] = ps
        if q.random() < 0.3:
            kw["progress_bar"] = q.choice([None, False])
        t_arg = times.tolist() if q.random() < 0.3 else times.copy()
        H_arg = [mk(h) for h in Hs]
        H_arg = tuple(H_arg) if q.random() < 0.2 else H_arg
        frozen = None if start is None else np.array(base) if how in ("array", "list", "rows") else eff.copy()
        call = dict(kind=kind, d=d, J=J, M=M, R=R, T=T, eps=eps, lim=lim, start=how, alpha=alpha, beta=beta, phase_sensitive=ps, interp=interp, goal=goal)

        def rep(key, det):
            dev.append(("grape:" + key, dict(call=call, detail=str(det)[:600])))
        try:
            res = getattr(grape, kind)(mk(V), mk(H0), H_arg, R, t_arg, **kw)
            u = np.array(res.u, dtype=float)
        except Exception:
            rep("raises", short_tb())
            continue
        if u.ndim != 3 or len(u) < 1 or len(u) > max(R, 1) or u.shape[1:] != (J, M) or not np.all(np.isfinite(u)):
            rep("shape", u.shape)
            continue
        if start is not None and not np.array_equal(np.array([np.broadcast_to(np.array(s, dtype=float), (M,)) for s in start]), eff):
            rep("start-changed", start)
        if not np.array_equal(np.array(t_arg), times):
            rep("times-changed", t_arg)
        dt = times[1] - times[0]
        e = 0.1 * 2 * np.pi / times[-1] if eps is None else eps
        G = [gradient(V, H0, Hs, u[r], dt, ps) for r in range(len(u))]
        # the final unitary, and the Hamiltonian of the final pulse
        uf = evo.full(res.U_f)
        dist = 9e9 if uf.shape != (d, d) or res.U_f.dims != mk(V).dims else np.max(np.abs(uf - G[-1][1]))
        H = res.H_t
        ok = len(H) == J + 1 and np.array_equal(evo.full(H[0]), H0)
        for j in range(J):
            if not ok:
                break
            ok = len(H[j + 1]) == 2 and np.array_equal(evo.full(H[j + 1][0]), Hs[j])
            f = H[j + 1][1]
            if ok and interp:
                ok = callable(f) and np.allclose([float(f(t, None)) for t in times], u[-1, j], rtol=0, atol=1e-8)
                if ok and kw.get("interp_kind", "linear") == "linear":
                    mid = (times[1:] + times[:-1]) / 2
                    ok = np.allclose([float(f(t, None)) for t in mid], (u[-1, j, 1:] + u[-1, j, :-1]) / 2, rtol=0, atol=1e-8)
                ok = ok and np.allclose(float(f(times[-1] + 1.0, None)), u[-1, j, -1], rtol=0, atol=1e-8)
            elif ok:
                ok = np.array_equal(np.asarray(f), u[-1, j])
        rec = dict(kind="adaptive" if kind.endswith("adaptive") else "plain", R=R, lim=[I(x) for x in lim] if lim else [],
                   start=[[I(x) for x in row] for row in eff], u=[[[I(x) for x in row] for row in ur] for ur in u],
                   uf=int(min(dist * 1e8, 1e9)), ht=bool(ok), call=call)
        if lim and not (np.min(u) >= lim[0] and np.max(u) <= lim[1]):
            rep("outside-limits", (np.min(u), np.max(u), lim))
        al, be = alpha or 0.0, beta or 0.0
        pen = lambda r: np.array([[2 * al * u[r, j, m] * dt + 2 * be * m * m * u[r, j, m] * dt for m in range(M - 1)] for j in range(J)])
        L3 = lambda a: [[I(x) for x in row] for row in a]
        big = np.max(np.abs(u)) > 200
        if rec["kind"] == "plain":
            rec["d"] = [L3(e * G[r][0]) for r in range(len(u) - 1)]
            rec["p"] = [L3(e * pen(r)) for r in range(len(u) - 1)]
        else:
            x0 = R + 2
            xs = [2.0 ** (x - x0) for x in range(1, 2 * R + 4)]
            step = lambda r, s: u[r, :, :-1] + s * e * (G[r][0] - pen(r))

            def over(r, s):
                w = step(r, s)
                if lim:
                    w = np.clip(w, lim[0], lim[1])
                w = np.hstack([w, w[:, -1:]])
                return gradient(V, H0, Hs, w, dt, ps)[2]
            big = big or any(np.max(np.abs(s * e * a)) > 500 for s in xs for r in range(len(u)) for a in (G[r][0], pen(r)))
            if not big:
                rec["dx"] = [[L3(s * e * G[r][0]) for s in xs] for r in range(len(u) - 1)]
                rec["px"] = [[L3(s * e * pen(r)) for s in xs] for r in range(len(u) - 1)]
                rec["ov"] = [[int(round(OSC * over(r, s))) for s in xs] for r in range(len(u) - 1)]
                rec["x0"], rec["goal"] = x0, int(round(OSC * goal)) if goal < 1 else -1
                rec["log"] = [int(round(OSC * o)) for o in np.array(res.overlap)[:len(u) - 1]]
        if big:
            skipped += 1
            continue
        recs.append(rec)
    return recs, dev, skipped


def run(pid):
    thorough = TIER == "thorough"
    import_repo()
    ck = Check(pid)
    inv = ["TypeOK", "InLimits", "LastRepeats", "Uphill", "Still"]
    cf = lambda J, M, lims, ab, e=(1,), dts=(1,): Raw("{" + ", ".join(
        "[J |-> %d, M |-> %d, lim |-> %s, a |-> %d, b |-> %d, e |-> %d, dt |-> %d]" % (J, M, tla_val(l), a, b, x, t)
        for l in lims for a, b in ab for x in e for t in dts) + "}")
    lims = [(), (-1, 2), (0, 0), (1, 3)]
    ab = [(0, 0), (1, 0), (0, 1), (1, 1)]
    base = dict(Mode="plain", Us={-2, 0, 3}, Gs={-1, 0, 2}, Ovs={0})
    em = []
    for name, cfgs, R in (("one control, two slots", cf(1, 3, lims, ab, (1, 2), (1, 2)), 3), ("two controls", cf(2, 2, lims, ab, (1, 2)), 3),
                          ("one control, three slots", cf(1, 4, lims, ab, (1,), (1, 2)), 2), ("two controls, two slots", cf(2, 3, lims, [(0, 0), (1, 1)]), 2)):
        if thorough:
            base = dict(base, Gs={-1, 0, 2, 5} if R == 2 else {-1, 0, 2})
        a = run_tlc("Grape", dict(base, Cfgs=cfgs, MaxR=R), invariants=inv, emit="Emit")
        ck.tlc(a, "Grape, " + name)
        E = sorted(a.emitted, key=json.dumps)
        em += rng("grape", name).sample(E, min(len(E), 40000 if thorough else 5000))
    b = run_tlc("Grape", dict(Mode="adaptive", Us={-2, 3}, Gs={-1, 2}, Ovs={0, 1, 2}, MaxR=4, Cfgs=cf(1, 2, [(), (-1, 2)], [(0, 0), (1, 1)], (16,))),
                invariants=["TypeOK", "InLimits", "Uphill", "BestSoFar"], properties=["Better"])
    ck.tlc(b, "Grape, adaptive steps")
    for n, dev in pmap(_inner, [(em[k:k + 250], k) for k in range(0, len(em), 250)], chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    total, per = (24000, 300) if thorough else (4000, 50)
    recs = []
    for rs, dev, sk in pmap(_record, [(k, per) for k in range(0, total, per)], chunk=1):
        recs += rs
        ck.count("recordings_skipped", sk)
        for k, d in dev:
            ck.viol(k, d)
    for i in range(0, len(recs), 4000):
        part = recs[i:i + 4000]
        r = run_tlc("GrapeTrace", {}, invariants=[], emit="Emit", postcondition="Consumed", workers=1,
                    extra_files={"trace.json": json.dumps([{a: v for a, v in x.items() if a != "call"} for x in part])})
        ck.tlc(r, "GrapeTrace")
        for e in r.emitted:
            x = part[e["i"] - 1]
            ck.viol("grape:%s-%s" % (x["call"]["kind"], e["why"]), dict(call=x["call"], u=x["u"], uf=x["uf"], ht=x["ht"]))
    ck.traces(len(recs))
    ck.sample({"recorded": recs[0]["call"], "pulses": recs[0]["u"]})
    ck.assumptions.append("equal time steps; penalties not negative; recordings of runs whose pulses leave +-200 are not judged")
    return ck
