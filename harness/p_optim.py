"""P06, P07, P08 (and the optimiser parts of P09, P10, P12): behaviours of spec/Optim.tla."""
from concurrent.futures import ThreadPoolExecutor
from common import *
import evo, optim

INV = ["TypeOK", "StopsAtFirst", "ReasonTrue", "FreshStats", "LimitsKept", "RecordsOk"]
PR = {}


def spec_runs(ck, probs, pid, thorough):
    def one(p):
        import collections
        k = rng("optim", p.tag).randrange(len(optim.SETTINGS))
        order = optim.SETTINGS[k:] + optim.SETTINGS[:k]
        base = dict(Class=p.cls, Pulses=p.ids, ErrRank=p.erank, GradRank=p.grank, FidKind=p.fidkind,
                    UseGrad=p.usegrad, Ticks={1, 3}, Between={"set", "reset", "reinit", "use"})
        out = []
        # one run, every sequence of callbacks, each settings in turn
        levels = {"SUMMARY", "FULL"} if pid == "P10" else {"NONE"}
        if pid != "P08":
            r = run_tlc("Optim", dict(base, Settings=order, Warns=set(optim.WARNS[p.cls]), MaxEv=4 if thorough else 3,
                                      MaxRuns=1, MaxBetween=0, DumpLevels=levels, StartSet=set(range(1, 7) if thorough else [1] if pid in ("P10", "P09") else [1, 2, 3])),
                        invariants=INV, emit="Emit", workers=4, properties=["Immutable"])
            out.append((order, r, "one run"))
        r = run_tlc("Optim", dict(base, Settings=order, Warns={optim.WARNS[p.cls][k % len(optim.WARNS[p.cls])]}, MaxEv=7,
                                  MaxRuns=3, MaxBetween=2, DumpLevels=levels, StartSet=set(range(1, 7))),
                    invariants=INV, emit="Emit", workers=1, simulate=(6000 if thorough else 500) * (2 if pid == "P08" else 1), depth=40)
        out.append((order, r, "three runs (simulated)"))
        return p, out
    res = []
    with ThreadPoolExecutor(4) as ex:
        for p, out in ex.map(one, probs):
            for S, r, what in out:
                ck.tlc(r, "Optim %s %s" % (p.tag, what))
            res.append((p, out))
    return res


def _worker(job):
    pid, tag, S, recs, variants = job
    p = PR[tag]
    dev, n = [], 0
    for rec, v in zip(recs, variants):
        def rep(prop, key, detail=""):
            if prop == pid and len(dev) < 40:
                dev.append(("%s:%s" % (tag, key), dict(detail=detail, settings=S, variant=v,
                            history=[(o["op"], o["i"], o["w"], o["s"]) for o in rec["h"]])))
        optim.ORun(p, rec, rep, S, **v).run()
        n += 1
    return n, dev


def prepare(ck, probs, pid):
    ok = []
    for p in probs:
        try:
            p.probe()
        except AssertionError:
            raise
        except Exception:
            ck.viol("%s:probe-raises" % p.tag, short_tb())
            continue
        if p.refdev and pid == "P07":
            ck.viol("%s:%s-wrong" % (p.tag, p.refdev), "differs from the independent reference")
        PR[p.tag] = p
        ok.append(p)
    return ok


def replay(ck, pid, probs, thorough, per):
    jobs, sample = [], []
    for p, out in spec_runs(ck, probs, pid, thorough):
        for S, r, what in out:
            R = [x for x in r.emitted]
            R.sort(key=lambda x: json.dumps(x["h"], sort_keys=True))
            q = rng(pid, p.tag, what, repr(S[0]))
            n = per if what == "one run" else per * 2
            if pid == "P10":
                R = [x for x in R if x["h"][0]["lvl"] != "NONE"]
            if len(R) > n:
                R = q.sample(R, n)
            V = [dict(stats=True if pid == "P12" else q.random() < 0.7, log_level=q.choice([None, None, None, 10, 20, 5]),
                      dtype=q.choice([None, None, "ndarray", "Qobj"]), variant=q.choice([0, 0, 1, 1, 2])) for _ in R]
            if R:
                ck.sample({"problem": p.tag, "history": [(o["op"], o["i"], o["w"]) for o in R[0]["h"]], "result": R[0]["res"]})
            for why in set(x["why"] for y in R for x in y["res"]):
                ck.count("outcome " + why, sum(1 for y in R for x in y["res"] if x["why"] == why))
            sample.append((p.tag, S, R[:12]))
            for a in range(0, len(R), 100):
                jobs.append((pid, p.tag, S, R[a:a + 100], V[a:a + 100]))
    for n, dev in pmap(_worker, jobs, chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    return sample


def run(pid):
    import_repo()
    ck = Check(pid)
    thorough = TIER == "thorough"
    ck.assumptions = ["the minimiser is scripted: it performs every sequence of callbacks of the behaviour",
                      "time is a fake clock advanced only by the behaviour",
                      "four pulses per problem; errors and gradient norms enter the specification as ranks"]
    probs = prepare(ck, optim.oproblems(), pid)
    replay(ck, pid, probs, thorough, 1500 if thorough else 150)
    if pid in ("P06", "P07"):
        import runs
        runs.judge(ck, pid, 15000 if thorough else 2500)
    return ck
