"""P12: statistics (spec/Stats.tla, and the counters of spec/Evo.tla and spec/Optim.tla)."""
import io, contextlib, math
from common import *
import p_evo, p_optim, optim, evo, runs

COUNTER = {"iter": "num_iter", "upd": "num_ctrl_amp_updates", "slots": "num_timeslot_changes",
           "chg": "num_ctrl_amp_changes", "gens": "num_dyn_gen_computes", "props": "num_prop_computes",
           "fwds": "num_fwd_prop_step_computes", "onwds": "num_onwd_prop_step_computes",
           "tgen": "wall_time_dyn_gen_compute", "tprop": "wall_time_prop_compute",
           "tfwd": "wall_time_fwd_prop_compute", "tonwd": "wall_time_onwd_prop_compute"}
MEAN = {"m_upd": "mean_num_ctrl_amp_updates_per_iter", "m_slots": "mean_num_timeslot_changes_per_update",
        "m_chg": "mean_num_ctrl_amp_changes_per_update", "m_gens": "mean_num_dyn_gen_computes_per_update",
        "m_tgen": "mean_wall_time_dyn_gen_compute", "m_props": "mean_num_prop_computes_per_update",
        "m_tprop": "mean_wall_time_prop_compute", "m_fwds": "mean_num_fwd_prop_step_computes_per_update",
        "m_tfwd": "mean_wall_time_fwd_prop_compute", "m_onwds": "mean_num_onwd_prop_step_computes_per_update",
        "m_tonwd": "mean_wall_time_onwd_prop_compute"}


def _means(job):
    detailed, hs = job
    from qutip_qtrl import stats
    dev = []
    for h in hs:
        rep = lambda k, d: dev.append(("stats-%s:%s" % ("detailed" if detailed else "basic", k),
                                       dict(detail=d, history=[(o["op"], o["c"], o["a"]) for o in h]))) if len(dev) < 20 else None
        s = (stats.StatsDynTsUpdate if detailed else stats.Stats)()
        for o in h:
            try:
                if o["op"] == "count":
                    a = COUNTER[o["c"]]
                    setattr(s, a, getattr(s, a) + o["a"])
                elif o["op"] == "begin":
                    s.wall_time_optim_start, s.wall_time_optim_end = float(o["a"]), 0.0
                elif o["op"] == "end":
                    s.wall_time_optim_end = float(o["a"])
                elif o["op"] == "calc":
                    s.calculate()
                    with contextlib.redirect_stdout(io.StringIO()):
                        s.report()
                elif o["op"] in ("clear", "reset"):
                    getattr(s, o["op"])()
                for c, v in o["n"].items():
                    if getattr(s, COUNTER[c]) != v:
                        rep("%s-%s" % (o["op"], COUNTER[c]), "%r want %r" % (getattr(s, COUNTER[c]), v))
                if o["op"] == "calc":
                    for k, (a, b) in o["m"].items():
                        g = getattr(s, MEAN[k])
                        if not (math.isnan(g) if b == 0 else abs(g - a / b) < 1e-12):
                            rep(MEAN[k], "%r want %s/%s" % (g, a, b))
                    if s.wall_time_optim != o["dur"]:
                        rep("wall_time_optim", "%r want %r" % (s.wall_time_optim, o["dur"]))
            except Exception:
                rep(o["op"] + "-raises", short_tb())
                break
    return len(hs), dev


def means(ck, thorough):
    jobs = []
    for detailed in (False, True):
        a = run_tlc("Stats", dict(Detailed=detailed, Amounts={2}, MaxOps=5 if thorough or not detailed else 4),
                    invariants=["TypeOK", "Ratios"], properties=["Forgets"], emit="Emit")
        b = run_tlc("Stats", dict(Detailed=detailed, Amounts={1, 2, 5}, MaxOps=14), invariants=["TypeOK", "Ratios"],
                    emit="Emit", workers=1, simulate=4000 if thorough else 600, depth=15)
        ck.tlc(a, "Stats detailed=%s" % detailed)
        ck.tlc(b, "Stats detailed=%s simulated" % detailed)
        H = [r["h"] for r in a.emitted + b.emitted]
        ck.sample({"stats": [(o["op"], o["c"], o["a"]) for o in b.emitted[0]["h"]]})
        for k in range(0, len(H), 1500):
            jobs.append((detailed, H[k:k + 1500]))
    for n, dev in pmap(_means, jobs, chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)


def _quiet(job):
    """Behaviours run twice, with and without statistics: same observations."""
    tag, cfgs, hs, words = job
    p = p_evo.PROBS[tag]
    ref = {}
    dev = []
    for cfg, h in zip(cfgs, hs):
        o = []
        for st in (True, False):
            rp = evo.Replayer(p, cfg, evo.reference_for(p, cfg, words, ref), lambda *a: None, st)
            rp.run(h)
            o.append(rp.obs)
        d = p_evo.differ(*o)
        if d and len(dev) < 20:
            dev.append(("%s:stats-change-results-%s" % (tag, d), dict(cfg={k: v for k, v in cfg.items() if v is not None},
                                                                     history=[(x["op"], x["i"], x["s"]) for x in h])))
    return 2 * len(hs), dev


def _quiet_opt(job):
    tag, S, recs = job
    p = p_optim.PR[tag]
    dev = []
    for n, rec in enumerate(recs):
        got = []
        for st in (True, False):
            keys = set()
            optim.ORun(p, rec, lambda pr, k, d="": keys.add((pr, k)) if pr in ("P06", "P07", "P08") else None, S, stats=st,
                       variant=n % 2).run()
            got.append(keys)
        if got[0] != got[1] and len(dev) < 20:
            dev.append(("%s:stats-change-run" % tag, dict(with_stats=sorted(got[0]), without=sorted(got[1]),
                                                         history=[(o["op"], o["i"], o["w"], o["s"]) for o in rec["h"]])))
    return 2 * len(recs), dev


def run(pid):
    thorough = TIER == "thorough"
    ck = p_evo.run("P12")
    means(ck, thorough)
    probs = p_optim.prepare(ck, optim.oproblems(), "P12")
    sample = p_optim.replay(ck, "P12", probs, thorough, 1200 if thorough else 100)
    jobs = []
    for tag, cfgs, hs, words in p_evo.LAST:
        jobs.append((tag, cfgs, hs, words))
    for n, dev in pmap(_quiet, jobs, chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    for n, dev in pmap(_quiet_opt, sample, chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    runs.judge(ck, "P12", 12000 if thorough else 2000)
    ck.assumptions.append("wall-clock durations of parts of the computation are only required to be passed through")
    return ck
