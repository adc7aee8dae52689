"""P13, P14: pulse generators (spec/Pulse.tla, spec/Fit.tla, spec/PulseTrace.tla)."""
import math, json
import numpy as np
from common import *

R = lambda *a: tuple(a)
F = lambda r: r[0] / r[1]
NONE = (0, 0)
KINDS = ["ZERO", "LIN", "SQUARE", "SAW", "TRIANGLE", "SINE", "GAUSSIAN", "GAUSSIAN_EDGE"]
PERIODIC = {"SINE", "SQUARE", "SAW", "TRIANGLE"}
ARGS = {"LIN": ("gradient", "start_val", "end_val"), "GAUSSIAN": ("mean", "variance"),
        "GAUSSIAN_EDGE": ("decay_time",), "ZERO": ()}
ARGS.update({k: ("num_waves", "wavelen", "freq", "start_phase") for k in PERIODIC})
NOB, INF = Raw("NoB"), Raw("InfB")


def bset(pairs):
    f = lambda b, s: "NoB" if b is None else "InfB" if b == "inf" else "NumB(<<%d, %d>>)" % b
    return Raw("{" + ", ".join("<<%s, %s>>" % (f(a, 0), f(b, 1)) for a, b in pairs) + "}")


def number(r, typed):
    return r[0] if r[1] == 1 and typed else F(r)


def kwargs(kind, a, typed=False):
    d = {}
    for name, r in zip(ARGS[kind], a):
        if tuple(r) != NONE:
            d[name] = 2 * math.pi * F(r) if name == "start_phase" else number(r, typed)
    return d


def bound(b, sign):
    return {"none": None, "inf": sign * math.inf}.get(b["k"], F(b["v"]))


def create(c, variant):
    """A real generator for cfg c. variant 0..5: how it is told about the timeslots and where the
    scaling and offset come from."""
    from qutip_qtrl import pulsegen, dynamics, optimconfig
    kind, taus = c["kind"], [F(t) for t in c["taus"]]
    equal = len(set(taus)) == 1
    params = kwargs(kind, c["par"], variant % 2 == 1)
    lb, ub = bound(c["lb"], -1), bound(c["ub"], 1)
    if c["lb"]["k"] != "none" or variant % 2:
        params["lbound"] = lb
    if c["ub"]["k"] != "none" or variant % 2:
        params["ubound"] = ub
    scale, off = F(c["scale"]), F(c["off"])
    dyn = None
    if variant in (0, 1):
        params.update(scaling=scale, offset=off)
        if equal and variant == 0:
            params.update(num_tslots=len(taus), pulse_time=sum(taus))
        else:
            params["tau"] = np.array(taus)
    else:
        dyn = dynamics.DynamicsGenMat(optimconfig.OptimConfig())
        if equal and variant in (2, 3):
            dyn.num_tslots, dyn.evo_time = len(taus), sum(taus)
        else:
            dyn.tau = np.array(taus)
        if variant in (3, 5):
            dyn.init_timeslots()
        dyn.initial_ctrl_scaling, dyn.initial_ctrl_offset = (scale, off) if variant != 4 else (17.0, 23.0)
        if variant == 4:
            params.update(scaling=scale, offset=off)
    return pulsegen.create_pulse_gen(kind, dyn, params or None)


def expected(c, o):
    """The specified pulse: exact values, or the named function of the specified argument."""
    kind = c["kind"]
    x = np.array([F(r) for r in o["out"]])
    if kind in ("ZERO", "LIN", "SQUARE", "SAW", "TRIANGLE"):
        return x
    if kind == "SINE":
        x = np.sin(2 * math.pi * x)
    elif kind == "GAUSSIAN":
        x = np.exp(x)
    else:
        x = 1.0 - np.exp(x) - np.exp(np.array([F(r) for r in o["far"]]))
    return x * F(c["scale"]) + F(c["off"])


def _replay(job):
    recs, first = job
    dev, nout = [], 0
    for n, rec in enumerate(recs):
        c, h = rec["c"], rec["h"]
        variant = (first + n) % 6
        kind = c["kind"]

        def rep(pid, key, d):
            if len(dev) < 30:
                dev.append((pid, "%s:%s" % (kind, key), dict(detail=d, cfg=c, variant=variant,
                            history=[(o["op"], o["a"], o["lb"], o["ub"]) for o in h])))
        try:
            g = create(c, variant)
        except Exception:
            rep("P14", "create-raises", short_tb())
            continue
        if g.periodic != (kind in PERIODIC) or g.random:
            rep("P14", "flags", (g.periodic, g.random))
        base = None
        for o in h:
            kw = kwargs(kind, o["a"], (first + n) % 2 == 1)
            try:
                if o["op"] == "init":
                    g.init_pulse(**kw)
                elif o["op"] == "gen":
                    got = g.gen_pulse(**kw)
                elif o["op"] == "bounds":
                    g.lbound, g.ubound = bound(o["lb"], -1), bound(o["ub"], 1)
                elif o["op"] == "reset":
                    g.reset()
                if o["state"] == "rejected" and o["op"] in ("init", "gen"):
                    rep("P13", "inconsistent-bounds-accepted", o["op"])
                    break
            except ValueError:
                if o["state"] != "rejected":
                    rep("P14", "raises", short_tb())
                break
            except Exception:
                rep("P13" if o["state"] == "rejected" else "P14", o["op"] + "-raises", short_tb())
                break
            if o["op"] == "gen":
                nout += 1
                taus = c["taus"]
                if np.shape(got) != (len(taus),):
                    rep("P13", "length", np.shape(got))
                    rep("P14", "length", np.shape(got))
                    break
                lb, ub = bound(o["lb"], -1), bound(o["ub"], 1)
                if not np.all(np.isfinite(got)):
                    rep("P13", "not-finite", got)
                    rep("P14", "not-finite", got)
                    break
                if (lb is not None and np.min(got) < lb - 1e-9) or (ub is not None and np.max(got) > ub + 1e-9):
                    rep("P13", "outside-bounds", got)
                if o["sharp"] or kind not in ("ZERO", "LIN", "SQUARE", "SAW", "TRIANGLE"):
                    want = expected(c, o)
                    bad = np.max(np.abs(got - want)) > 3e-5 * (1 + np.max(np.abs(want)))
                    if bad and o["fit"] in ("asis", ""):
                        rep("P14", "values", (got, want))
                    if bad and o["lb"]["k"] + o["ub"]["k"] != "nonenone":
                        rep("P13", "fit-" + o["fit"], (got, want))
                    elif bad and kind in ("ZERO", "LIN", "SQUARE", "SAW", "TRIANGLE"):
                        # shape + offset, whatever the shape: differences are the scaled ones
                        rep("P13", "fit-none", (got, want))
                # the array handed out is the caller's
                if n % 7 == 0:
                    got[:] = 99.0
            if o["state"] == "ready" and o["op"] in ("gen", "init"):
                if kind in PERIODIC:
                    f, T = F(o["freq"]), sum(F(t) for t in c["taus"])
                    trip = (g.freq, g.wavelen, g.num_waves)
                    if not np.allclose(trip, (f, 1 / f, f * T), rtol=1e-5):
                        rep("P14", "waves-frequency-wavelength", (trip, (f, 1 / f, f * T)))
                if kind == "LIN" and abs(g.gradient - F(o["grad"])) > 1e-5 * (1 + abs(F(o["grad"]))):
                    rep("P14", "gradient", (g.gradient, F(o["grad"])))
                if g.num_tslots != len(c["taus"]) or abs(g.pulse_time - sum(F(t) for t in c["taus"])) > 1e-6 * g.pulse_time:
                    rep("P14", "timing", (g.num_tslots, g.pulse_time))
    return nout, dev


COMMON = dict(Waves={R(2, 1), R(3, 2)}, Lens={R(3, 4)}, Freqs={R(2, 3)}, Phases={R(1, 16)},
              Grads={R(3, 2)}, Starts={R(1, 4)}, Ends={R(-2, 1)}, Means={R(0, 1), R(1, 1)}, Vars={R(3, 2)}, Decays={R(1, 3)})
INV = ["TypeOK", "Bounded", "Rejects", "Again", "Driven", "Ends2", "Range"]
ALLB = [(None, None), ("inf", "inf"), (None, "inf"), ((-1, 2), (1, 2)), ((-1, 2), None), (None, (1, 4)), ("inf", (1, 2)),
        ((1, 3), "inf"), ((0, 1), (5, 1)), ((-5, 1), (0, 1)), ((-6, 1), (6, 1)), ((1, 2), (1, 2)), ((1, 2), (-1, 2)), ((0, 1), None),
        (None, (0, 1))]


TAUS = [((1, 2),) * 4, ((1, 4), (1, 2), (1, 4)), ((3, 4),), ((1, 8),) * 8, ((1, 1), (2, 1), (1, 2), (1, 4)), ((1, 16), (1, 2))]


def tb(b):
    return "NoB" if b is None else "InfB" if b == "inf" else "NumB(<<%d, %d>>)" % b


def random_cfgs(n):
    r = rng("pulse-cfgs")
    out = set()
    for _ in range(n):
        k = r.choice(KINDS)
        b = r.choice(ALLB if k in ("ZERO", "LIN", "SQUARE", "SAW", "TRIANGLE") else [(None, None), ("inf", "inf"), (None, "inf")])
        sets = {"LIN": ("Grads", "Starts", "Ends"), "GAUSSIAN": ("Means", "Vars"), "GAUSSIAN_EDGE": ("Decays",), "ZERO": ()}
        par = [r.choice(sorted(COMMON[s])) if r.random() < 0.4 else NONE
               for s in sets.get(k, ("Waves", "Lens", "Freqs", "Phases"))]
        par += [NONE] * (4 - len(par))
        out.add('[kind |-> "%s", taus |-> %s, scale |-> %s, off |-> %s, lb |-> %s, ub |-> %s, par |-> %s]' % (
            k, tla_val(r.choice(TAUS)), tla_val(r.choice([(1, 1), (-1, 2), (5, 2), (3, 8)])),
            tla_val(r.choice([(0, 1), (1, 2), (-3, 4)])), tb(b[0]), tb(b[1]), tla_val(par)))
    return Raw("{" + ",\n ".join(sorted(out)) + "}")


def deterministic(ck, pid, thorough):
    small = dict(COMMON, Taus=Raw("{%s}" % tla_val(((1, 2), (1, 4), (1, 1)))), Scales={R(3, 2)}, Offsets={R(1, 4)},
                 Kinds=set(KINDS), Bounds=bset([(None, None), ((-1, 2), (1, 2)), (None, (1, 4)), ((1, 2), (-1, 2))]),
                 Waves={R(2, 1)}, MaxOps=2, Means={R(0, 1)}, Cfgs=Raw("AllCfgs"), MaxGiven=2 if thorough else 1, Rand=False)
    a = run_tlc("Pulse", small, invariants=INV, emit="Emit")
    ck.tlc(a, "Pulse exhaustive")
    big = dict(COMMON, Taus={R(1, 1)}, Scales={R(1, 1)}, Offsets={R(0, 1)}, Kinds=set(KINDS),
               Bounds=bset(ALLB), MaxOps=5, Cfgs=random_cfgs(2000 if thorough else 500), MaxGiven=3, Rand=True)
    b = run_tlc("Pulse", big, invariants=INV, emit="Emit", simulate=20000 if thorough else 2500, depth=6, workers=1)
    ck.tlc(b, "Pulse simulated")
    recs = a.emitted if thorough else rng("pulse").sample(a.emitted, min(len(a.emitted), 12000))
    recs = recs + b.emitted
    ck.sample({"pulse": b.emitted[0]})
    jobs = [(recs[k:k + 500], k) for k in range(0, len(recs), 500)]
    n = 0
    for m, dev in pmap(_replay, jobs, chunk=1):
        n += m
        for q, k, d in dev:
            if q == pid:
                ck.viol(k, d)
    ck.traces(len(recs))
    ck.count("pulses_compared", n)


# ---------------------------------------------------------------- recorded pulses
RANDOM = ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2"]


def draw_bounds(r, w):
    lo, hi = float(min(w)), float(max(w))
    c = r.randrange(8)
    span = hi - lo + 0.2
    f = lambda: lo + span * (r.random() * 1.8 - 0.4)
    if c == 0:
        return None, f()
    if c == 1:
        return f(), None
    if c == 2:
        return -math.inf, f()
    if c == 3:
        return f(), math.inf
    if c == 4:
        return lo - 0.3, hi + 0.3
    if c == 5:
        a = f()
        return a, a + span * (0.2 + r.random())
    if c == 6:
        a, b = sorted((f(), f()))
        return a, b
    return r.choice([(0.0, None), (None, 0.0), (0.0, 0.5), (-0.5, 0.0), (0.3, 0.3), (None, math.inf), (-math.inf, None)])


def _record(job):
    k0, cnt = job
    from qutip_qtrl import pulsegen, dynamics, optimconfig
    import warnings
    warnings.simplefilter("ignore")
    recs, dev, skipped = [], [], 0
    for k in range(k0, k0 + cnt):
        r = rng("pulse-trace", k)
        kind = (RANDOM * 2 + ["SINE", "GAUSSIAN", "GAUSSIAN_EDGE"])[k % 13]
        N = r.choice([1, 2, 3, 5, 8, 12])
        T = r.choice([0.5, 1.0, 3.0])
        sc, off = r.choice([1.0, 0.5, 2.0, -0.75]), r.choice([0.0, 0.25, -0.5, 0.9])
        params, lim = {}, dict(range=-1, start=-1, d1=-1, d2=-1)
        if kind == "RND":
            lim["range"] = abs(sc)
        elif kind == "RNDFOURIER":
            lim["range"] = 2.83 * abs(sc)
            if r.random() < 0.5:
                params["min_wavelen"] = T * r.choice([0.2, 0.6, 0.95])
        elif kind == "RNDWAVES":
            lim["range"] = 2.83 * abs(sc)
            if r.random() < 0.5:
                params.update(num_comp_waves=r.choice([1, 4]), min_wavelen=T * 0.3, max_wavelen=T * 0.9)
        elif kind == "RNDWALK1":
            lim["start"] = abs(sc)
            d = r.choice([None, 0.02, 0.3])
            if d is not None:
                params["max_d_amp"] = d
            lim["d1"] = abs(sc) * (0.1 if d is None else d)
        elif kind == "RNDWALK2":
            lim["start"] = abs(sc)
            d = r.choice([None, 0.05])
            if d is not None:
                params["max_d2_amp"] = d
            lim["d2"] = abs(sc) * (0.01 if d is None else d)
        elif kind == "SINE":
            params.update(freq=1.3 / T, start_phase=0.4)
        how = r.randrange(3)
        bound_how = r.randrange(3)

        # parameters are given when the generator is made or with the first pulse asked for
        late = r.random() < 0.5
        args = dict(params) if late else {}

        def make(extra, late=False):
            p = dict({} if late else params, **extra)
            if how == 0:
                p.update(num_tslots=N, pulse_time=T, scaling=sc, offset=off)
                return pulsegen.create_pulse_gen(kind, None, p)
            dyn = dynamics.DynamicsGenMat(optimconfig.OptimConfig())
            if how == 1:
                dyn.num_tslots, dyn.evo_time = N, T
            else:
                q = rng("pulse-tau", k)
                t = np.array([0.2 + q.random() for _ in range(N)])
                dyn.tau = t * T / t.sum()
            dyn.initial_ctrl_scaling, dyn.initial_ctrl_offset = sc, off
            return pulsegen.create_pulse_gen(kind, dyn, p or None)
        rep = lambda key, d: dev.append(("%s:%s" % (kind, key), dict(detail=d, scaling=sc, offset=off, N=N, T=T, params=params)))
        try:
            g = make({}, late)
            if g.random != (kind in RANDOM):
                rep("flag-random", g.random)
            seed = r.randrange(2 ** 31)
            np.random.seed(seed)
            w = g.gen_pulse(**args)
            w2 = g.gen_pulse()
            lb, ub = draw_bounds(r, w)
            if bound_how == 0:
                h = make(dict(lbound=lb, ubound=ub))
            else:
                h = make({})
                if bound_how == 2:
                    h.init_pulse()
                h.lbound, h.ubound = lb, ub
            np.random.seed(seed)
            o = h.gen_pulse()

            def two():
                np.random.seed(seed)
                x = make({})
                return x.gen_pulse(), x.gen_pulse()
            t = two()
            again = np.array_equal(t, two())
        except Exception:
            rep("raises", short_tb())
            continue
        if np.shape(w) != (N,) or np.shape(o) != (N,):
            rep("length", (np.shape(w), np.shape(o), N))
            continue
        if not (np.all(np.isfinite(w)) and np.all(np.isfinite(o))):
            rep("not-finite", (w, o, lb, ub))
            continue
        if (lb is not None and min(o) < lb - 1e-9) or (ub is not None and max(o) > ub + 1e-9):
            rep("outside-bounds", (o, lb, ub))
        if kind in RANDOM and N > 3 and np.array_equal(w, w2):
            rep("not-random", w)
        if again and not np.array_equal(t, (w, w2)):
            rep("arguments-%s" % ("not-kept" if np.array_equal(t[0], w) else "not-used"), (args, w, w2, t))
            continue
        q = lambda x: int(round(1000 * float(x)))
        if max(np.max(np.abs(w)), np.max(np.abs(o))) > 15:
            skipped += 1
            continue
        B = lambda b: [0, 0] if b is None or math.isinf(b) else [1, q(b)]
        ql = {a: (-1 if v < 0 else int(math.ceil(1000 * v))) for a, v in lim.items()}
        # without a reproducible twin only the ranges can be judged
        rec = dict(w=[q(x) for x in w], out=[q(x) for x in (o if again else w)], off=q(off),
                   lb=B(lb) if again else [0, 0], ub=B(ub) if again else [0, 0], kind=kind, twin=again, **ql)
        recs.append(rec)
        np.random.seed(seed + 1)
    # documented rejections
    for kind, p in (("RNDFOURIER", dict(min_wavelen=2.5)), ("RNDWAVES", dict(min_wavelen=2.5)),
                    ("RNDWAVES", dict(min_wavelen=0.5, max_wavelen=0.5)), ("RNDWAVES", dict(min_wavelen=0.5, max_wavelen=0.25))):
        g = pulsegen.create_pulse_gen(kind, None, dict(num_tslots=5, pulse_time=2.0))
        for by_param in (True, False):
            try:
                g = pulsegen.create_pulse_gen(kind, None, dict(num_tslots=5, pulse_time=2.0, **(p if by_param else {})))
                g.gen_pulse(**({} if by_param else p))
                dev.append(("%s:bad-wavelength-accepted" % kind, p))
            except ValueError:
                pass
            except Exception:
                dev.append(("%s:bad-wavelength-raises" % kind, short_tb()))
    for kind in RANDOM + KINDS:
        for lb, ub in ((1.0, 0.5), (0.0, -1e-3)):
            try:
                pulsegen.create_pulse_gen(kind, None, dict(num_tslots=4, lbound=lb, ubound=ub)).gen_pulse()
                dev.append(("%s:inconsistent-bounds-accepted" % kind, (lb, ub)))
            except ValueError:
                pass
            except Exception:
                dev.append(("%s:inconsistent-bounds-raises" % kind, short_tb()))
    return recs, dev, skipped


def recorded(ck, thorough):
    total = 13 * (600 if thorough else 90)
    recs = []
    for rs, dev, sk in pmap(_record, [(k, total // 13) for k in range(0, total, total // 13)], chunk=1):
        recs += rs
        ck.count("recordings_skipped", sk)
        for k, d in dev:
            ck.viol(k, d)
    r = run_tlc("PulseTrace", {}, invariants=[], emit="Emit", postcondition="Consumed", workers=1,
                extra_files={"trace.json": json.dumps(recs)})
    ck.tlc(r, "PulseTrace")
    ck.traces(len(recs))
    ck.count("recordings_with_twin", sum(x["twin"] for x in recs))
    ck.sample({"recorded": recs[0]})
    for e in r.emitted:
        x = recs[e["i"] - 1]
        ck.viol("%s:%s" % (x["kind"], e["why"]), x)


def run(pid):
    thorough = TIER == "thorough"
    ck = Check(pid)
    deterministic(ck, pid, thorough)
    if pid == "P13":
        recorded(ck, thorough)
    ck.assumptions.append("values exactly at a jump of a waveform, and fits decided by an equality, are not compared")
    return ck
