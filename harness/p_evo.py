"""P01-P05 (and the dynamics part of P12): behaviours of spec/Evo.tla."""
import itertools, collections
from concurrent.futures import ThreadPoolExecutor
from common import *
import evo
import numpy as np

ALLOPS = {"supply", "evo", "fid", "grad", "reinit", "resupply", "scribble", "peek"}
READS = {"P01": {"evo"}, "P02": {"fid"}, "P03": {"grad"}, "P04": {"evo", "fid", "grad"},
         "P05": {"evo"}, "P12": ALLOPS, "P22": {"evo"}}
INV = ["TypeOK", "NoStale", "ReadsCurrent", "WorkBound", "Laws", "EmitWords"]


def spec_runs(ck, need, maxops, sim_num, sim_depth):
    """Model-check every needed (shape, fidelity kind) and return its behaviours."""
    def one(k):
        shape, kind = k
        const = {"Pulses": evo.SHAPES[shape], "FidKind": kind, "NSys": 2, "InitAt": {1}, "Ops": ALLOPS}
        a = run_tlc("Evo", dict(const, MaxOps=maxops), invariants=INV, emit="Emit", workers=2, properties=["EvosGrow"])
        b = run_tlc("Evo", dict(const, MaxOps=sim_depth), invariants=INV[:-2], emit="Emit", workers=1,
                    simulate=sim_num, depth=sim_depth + 1)
        return k, a, b
    res = {}
    with ThreadPoolExecutor(4) as ex:
        for k, a, b in ex.map(one, sorted(need)):
            ck.tlc(a, "Evo %s/%s exhaustive depth %d" % (k[0], k[1], maxops))
            ck.tlc(b, "Evo %s/%s simulated depth %d" % (k[0], k[1], sim_depth))
            words = [r["w"] for r in a.emitted if "w" in r]
            H = [r["h"] for r in a.emitted if "h" in r]
            D = [r["h"] for r in b.emitted if "h" in r]
            key = lambda h: [(o["op"], o["i"], o["s"]) for o in h]
            H.sort(key=key)
            D.sort(key=key)
            res[k] = (words, H, D)
    return res


def _worker(job):
    pid, ptag, cfgs, behaviours, words, stats = job
    p = PROBS[ptag]
    refs = {}
    dev = []
    n = 0
    for cfg, h in zip(cfgs, behaviours):
        def rep(prop, key, detail):
            if prop == pid and len(dev) < 50:
                dev.append(("%s:%s" % (ptag, key),
                            dict(detail=detail, cfg={k: v for k, v in cfg.items() if v is not None},
                                 history=[(o["op"], o["i"], o["s"]) for o in h])))
        rp = evo.Replayer(p, cfg, evo.reference_for(p, cfg, words, refs), rep, stats)
        rp.shims = pid == "P22"
        rp.run(h)
        n += 1
    return n, dev


PROBS = {}
LAST = []     # a sample of the behaviours replayed, for reuse


def run(pid):
    import_repo()
    ck = Check(pid)
    thorough = TIER == "thorough"
    ck.assumptions = [
        "slot propagators and their derivatives are interpreted by an independent scaling-and-squaring exponential",
        "systems of dimension 2-4, 1-4 slots, 1-3 controls; comparison tolerance 2e-8 relative"]
    maxops, sim_num, sim_depth = (5, 800, 16) if thorough else (4, 40, 12)
    probs = evo.problems(TIER)
    if pid == "P05":
        probs = [p for p in probs if p.kind in ("UNIT", "SYMPL")]
    if pid == "P12":
        probs = [p for p in probs if p.tag in ("u1", "u3", "g1", "s3", "u5", "g4")]
    for p in probs:
        PROBS[p.tag] = p
    need = set()
    cfgs = {}
    for p in probs:
        by = collections.defaultdict(list)
        for c in evo.configs(p):
            if pid == "P05" and evo.kind_of(p, c) == "approx":
                continue
            by[evo.kind_of(p, c)].append(c)
        cfgs[p.tag] = by
        need |= {(p.shape, k) for k in by}
    T = spec_runs(ck, need, maxops, sim_num, sim_depth)
    if pid == "P04":
        return run_p04(ck, probs, cfgs, T, thorough)
    per = {"P01": 1000, "P02": 1000, "P03": 1000, "P05": 600, "P12": 2000, "P22": 400}[pid] * (12 if thorough else 1)
    jobs = []
    for p in probs:
        for kind, C in cfgs[p.tag].items():
            words, H, D = T[p.shape, kind]
            r = rng(pid, p.tag, kind)
            sel = [h for h in H if h[-1]["op"] in READS[pid]]
            ck.count("behaviours_with_relevant_last_read", len(sel))
            if len(sel) > per:
                sel = r.sample(sel, per)
            dsel = [h for h in D if any(o["op"] in READS[pid] for o in h)]
            if len(dsel) > per // 4:
                dsel = r.sample(dsel, per // 4)
            sel = sel + dsel
            C = list(C)
            r.shuffle(C)
            cc = [C[i % len(C)] for i in range(len(sel))]
            ck.count("configurations", min(len(C), len(sel)))
            LAST.append((p.tag, cc[-20:], sel[-20:], words))
            if sel:
                ck.sample({"problem": p.tag, "cfg": {k: str(v) for k, v in cc[0].items()},
                           "history": [(o["op"], o["i"], o["s"]) for o in dsel[0]] if dsel else None})
            for a in range(0, len(sel), 400):
                jobs.append((pid, p.tag, cc[a:a + 400], sel[a:a + 400], words, True))
    for n, dev in pmap(_worker, jobs, chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    if pid == "P05":
        omega(ck)
    return ck


def omega(ck):
    """calc_omega for every number of modes up to a bound, against the spec's form."""
    from qutip_qtrl import symplectic
    top = 40 if TIER == "thorough" else 12
    r = run_tlc("Omega", {"MaxModes": top}, invariants=["Antisym", "Involution"], emit="Emit", spec="Spec", workers=1)
    ck.tlc(r)
    for e in r.emitted:
        n = e["n"]
        try:
            O = np.asarray(symplectic.calc_omega(n))
            want = np.array(e["omega"], dtype=float)
            ck.traces(1)
            if O.shape != want.shape or not np.array_equal(O, want):
                ck.viol("omega-%d" % n, "calc_omega(%d) = %s" % (n, O.tolist()))
        except Exception:
            ck.viol("omega-%d" % n, short_tb())


def _p04_worker(job):
    ptag, group, behaviours, words = job
    p = PROBS[ptag]
    dev, n = [], 0
    for h in behaviours:
        outs = []
        for cfg in group:
            rp = evo.Replayer(p, cfg, evo.reference_for(p, cfg, words, _REF), lambda *a: None, True)
            rp.run(h)
            outs.append(rp.obs)
            n += 1
        base = outs[0]
        for cfg, o in list(zip(group, outs))[1:]:
            d = differ(base, o)
            if d and len(dev) < 30:
                strip = lambda c: {k: v for k, v in c.items() if v is not None}
                dev.append(("%s:%s" % (ptag, d), dict(cfg_a=strip(group[0]), cfg_b=strip(cfg),
                                                     history=[(x["op"], x["i"], x["s"]) for x in h])))
    return n, dev


_REF = {}


def differ(a, b):
    for x, y in itertools.zip_longest(a, b):
        if x is None or y is None:
            return "one-failed"
        xe, ye = isinstance(x[1], str), isinstance(y[1], str)
        if xe != ye:
            return "%s-raises-in-one" % x[0]
        if xe:
            continue
        if x[0] == "evo":
            if len(x[1]) != len(y[1]) or not all(evo.close(u, v) for u, v in zip(x[1], y[1])):
                return "evo-differs"
        elif not evo.close(x[1], y[1], 1e-6 if x[0] == "grad" else evo.TOL):
            return x[0] + "-differs"
    return None


def run_p04(ck, probs, cfgs, T, thorough):
    rounds = 400 if thorough else 60
    width = 12 if thorough else 8
    jobs = []
    for p in probs:
        for kind, C in cfgs[p.tag].items():
            words, H, D = T[p.shape, kind]
            r = rng("P04", p.tag, kind)
            # same measure, same physics (for symplectic systems the phase side is physics
            # unless it commutes, so it is kept fixed within a group)
            groups = collections.defaultdict(list)
            for c in C:
                fp = c.get("fid_params") or {}
                m = c["fid_type"]
                if m == "DEF":
                    m = "UNIT" if p.kind == "UNIT" else "TRACEDIFF"
                ph = fp.get("phase_option", "PSU") if m == "UNIT" else None
                groups[m, ph, fp.get("scale_factor"), evo.side_of(c, 1), c.get("other_side")].append(c)
            for gk, G in sorted(groups.items(), key=repr):
                per = max(4, rounds // len(groups))
                for _ in range(per):
                    g = [G[0]] + r.sample(G, min(width, len(G)))
                    hs = [r.choice(H), r.choice(D)]
                    jobs.append((p.tag, g, hs, words))
    for n, dev in pmap(_p04_worker, jobs, chunk=4):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    ck.count("groups", len(jobs))
    ck.sample({"group": [str(c) for c in jobs[0][1][:3]]})
    return ck
