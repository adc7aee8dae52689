"""P23: how much is logged never changes what happens (spec/Config.tla, Evo.tla, Optim.tla)."""
import logging, sys
from common import *
import evo, optim, p_config, p_evo, p_optim
import numpy as np

LEVELS = [6, 8, 10, 20, 30]


class Sink(logging.Handler):
    """Formats every message; a message that cannot be formatted is a failure of the call."""
    n = 0

    def emit(self, record):
        record.getMessage()
        Sink.n += 1


def loud():
    logging.disable(logging.NOTSET)
    h = Sink()
    for name, m in list(sys.modules.items()):
        if name.startswith("qutip_qtrl") and isinstance(getattr(m, "logger", None), logging.Logger):
            m.logger.handlers, m.logger.propagate = [h], False
    Sink.n = 0


def _calls(job):
    """Calls of the entry points with the amount of logging asked for and without."""
    recs, first = job
    loud()
    dev = []
    for n, rec in enumerate(recs):
        k = first + n
        c, r = rec["c"], rec["res"]
        dynk = {"DynamicsUnitary": "UNIT", "DynamicsSymplectic": "SYMPL"}.get(r["dyn"], "GEN_MAT")
        quiet = dict(c, log="-")
        seed = np_seed("log", k)
        obs = []
        for x in (quiet, c):
            kw = p_config.call_args(x, dynk, rng("log-sys", k))
            before = p_config.freeze(kw)
            obs.append(p_config.Obs(x, kw, seed))
            obs[-1].changed = p_config.freeze(kw) != before
        a, b = obs

        def rep(key, d=""):
            if len(dev) < 30:
                dev.append(("call-%s:%s" % (c["entry"], key), dict(call={f: v for f, v in c.items() if v != "-"}, detail=str(d)[:600])))
        if (a.err is None) != (b.err is None) or type(a.err) is not type(b.err):
            rep("raises", "quiet: %s, logging: %s" % (a.tb, b.tb))
            continue
        if b.changed and not a.changed:
            rep("argument-changed")
        if a.err is None:
            for key, x, y in p_config.differ(a.config(), b.config()):
                rep(key, "quiet: %r, logging: %r" % (x, y))
        for key, x, y in p_config.differ(a.outcome(), b.outcome()):
            rep(key, "quiet: %r, logging: %r" % (x, y))
    return len(recs), dev, Sink.n


class Noisy(evo.Replayer):
    """Sets the levels of the parts anew before every operation."""

    def _step(self, o, n):
        d = self.dyn
        for x in (d, d.fid_computer, d.prop_computer, d.tslot_computer):
            if self.q.random() < 0.6:
                lv = self.q.choice(LEVELS)
                x.log_level = lv
                if x.log_level != lv:
                    self.report("P23", "level-not-kept", "%s: %r" % (type(x).__name__, x.log_level))
        return evo.Replayer._step(self, o, n)


def _hist(job):
    tag, cfgs, behaviours, words, first = job
    loud()
    p = p_evo.PROBS[tag]
    ref, dev = {}, []
    for n, (cfg, h) in enumerate(zip(cfgs, behaviours)):
        out = []
        for cls in (evo.Replayer, Noisy):
            seen = set()

            def rep(prop, key, detail):
                if (prop, key) not in seen:
                    seen.add((prop, key))
                    out[-1][1].append((prop, key, detail))
            q = rng("noisy", tag, first + n)
            lv = None if cls is evo.Replayer else q.choice(LEVELS)
            out.append((cls(p, dict(cfg, log_level=lv), evo.reference_for(p, cfg, words, ref), rep, True), []))
            rp = out[-1][0]
            rp.q = q
            rp.run(h)
        quiet, noisy = out
        known = set((a, b) for a, b, _ in quiet[1])
        bad = [x for x in noisy[1] if x[:2] not in known]
        d = p_evo.differ(quiet[0].obs, noisy[0].obs)
        for prop, key, detail in bad:
            dev.append(("%s:%s" % (tag, key), dict(detail=detail, cfg={k: str(v) for k, v in cfg.items() if v is not None},
                                                  history=[(o["op"], o["i"], o["s"]) for o in h])))
        if d and not bad:
            dev.append(("%s:%s" % (tag, d), dict(cfg=str(cfg), history=[(o["op"], o["i"], o["s"]) for o in h])))
    return len(behaviours), dev[:30], Sink.n


def _runs(job):
    tag, S, recs, first = job
    loud()
    p = p_optim.PR[tag]
    dev = []
    for n, rec in enumerate(recs):
        q = rng("log-run", tag, first + n)
        v = dict(stats=q.random() < 0.7, dtype=q.choice([None, "ndarray", "Qobj"]), variant=q.choice([0, 1, 2]))
        out = []
        for lv in (None, q.choice(LEVELS)):
            got = {}
            from qutip_qtrl import pulseoptim
            pulseoptim.logger.setLevel(30)
            optim.ORun(p, rec, lambda prop, key, detail="": got.setdefault((prop, key), detail), S, log_level=lv, **v).run()
            out.append(got)
        for (prop, key), d in out[1].items():
            if (prop, key) not in out[0]:
                dev.append(("%s:%s" % (tag, key), dict(detail=d, settings=S, variant=v, history=[(o["op"], o["i"], o["w"], o["s"]) for o in rec["h"]])))
    return len(recs), dev[:30], Sink.n


def run(pid):
    import_repo()
    ck = Check(pid)
    thorough = TIER == "thorough"
    import itertools
    # 1. calls of the entry points
    inv = ["TypeOK", "CanonOk", "LogOnly"]
    others = [f for f in p_config.FIELDS if f != "log"]
    sets = [{"log", f} for f in others] + [{"log", "oper", "timing"}, {"log", "alg", "method"}, {"log", "dyn", "prop", "fid"}]
    recs = []
    s = run_tlc("Config", dict(Varied=p_config.sets_of(sets), Mode="combine"), invariants=inv, emit="Emit", workers=8)
    ck.tlc(s, "Config, logging with every other option")
    E = [x for x in s.emitted if x["c"]["log"] != "-"]
    E.sort(key=lambda x: json.dumps(x["c"], sort_keys=True))
    recs += rng(pid, "pairs").sample(E, min(len(E), 20000 if thorough else 2500))
    s = run_tlc("Config", dict(Varied=set(), Mode="random"), invariants=inv, emit="Emit", simulate=20000 if thorough else 3000, depth=60, workers=1)
    ck.tlc(s, "Config, all options at once (simulated)")
    recs += [x for x in s.emitted if x["c"]["log"] != "-"]
    ck.count("calls of the specification", len(recs))
    ck.sample({"call": {k: v for k, v in recs[-1]["c"].items() if v != "-"}})
    done = pmap(_calls, [(recs[k:k + 60], k) for k in range(0, len(recs), 60)])
    # 2. histories of dynamics objects
    probs = [p for p in evo.problems(TIER) if thorough or p.tag in ("u1", "u2", "u3", "u7", "g2", "g3", "s2", "s3")]
    need, cfgs = set(), {}
    for p in probs:
        p_evo.PROBS[p.tag] = p
        by = cfgs.setdefault(p.tag, {})
        for c in evo.configs(p):
            by.setdefault(evo.kind_of(p, c), []).append(dict(c, log_level=None))
        need |= {(p.shape, k) for k in by}
    T = p_evo.spec_runs(ck, need, 4, 400 if thorough else 60, 12)
    jobs = []
    for p in probs:
        for kind, C in cfgs[p.tag].items():
            words, H, D = T[p.shape, kind]
            q = rng(pid, p.tag, kind)
            sel = q.sample(H, min(len(H), 800 if thorough else 60)) + q.sample(D, min(len(D), 400 if thorough else 40))
            cc = [q.choice(C) for _ in sel]
            for a in range(0, len(sel), 50):
                jobs.append((p.tag, cc[a:a + 50], sel[a:a + 50], words, a))
    done += pmap(_hist, jobs)
    # 3. runs of optimisers
    probs = p_optim.prepare(ck, [p for p in optim.oproblems() if thorough or p.tag in ("lb1", "lb3", "bf1", "mi2", "cr1", "cr2", "fm1")], pid)
    jobs = []
    for p, out in p_optim.spec_runs(ck, probs, pid, False):
        for S, r, what in out:
            R = sorted(r.emitted, key=lambda x: json.dumps(x["h"], sort_keys=True))
            R = rng(pid, p.tag, what).sample(R, min(len(R), 600 if thorough else 60))
            for a in range(0, len(R), 30):
                jobs.append((p.tag, S, R[a:a + 30], a))
    done += pmap(_runs, jobs)
    for n, dev, lines in done:
        ck.traces(n)
        ck.count("messages logged", lines)
        for k, d in dev:
            ck.viol(k, d)
    ck.assumptions += ["every message is formatted, none is written anywhere", "the level asked for is one of the five the package uses"]
    return ck
