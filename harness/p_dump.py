"""P10, P11: behaviours of spec/Dump.tla replayed on real optimisers and dynamics."""
import io, re, tempfile, itertools, collections, copy
import numpy as np
from concurrent.futures import ThreadPoolExecutor
from common import *
import evo, optim
from evo import close, full

INV = ["TypeOK", "Indexed", "LevelTrue", "FilesTrue", "NothingLost"]
FLAG = {"o": {"err": "dump_fid_err", "gn": "dump_grad_norm", "grad": "dump_grad", "summary": "dump_summary"},
        "y": {"amps": "dump_amps", "gen": "dump_dyn_gen", "prop": "dump_prop", "pgrad": "dump_prop_grad",
              "fwd": "dump_fwd_evo", "onwd": "dump_onwd_evo", "onto": "dump_onto_evo", "summary": "dump_summary"}}
ITEM = {"amps": "ctrl_amps", "gen": "dyn_gen", "prop": "prop", "pgrad": "prop_grad", "fwd": "fwd_evo",
        "onwd": "onwd_evo", "onto": "onto_evo"}
ORDER = ["amps", "gen", "prop", "pgrad", "fwd", "onwd", "onto"]
TITLE = {"amps": "amps", "gen": "generator", "prop": "propagators", "pgrad": "propagator gradient", "fwd": "forward",
         "onwd": "onward", "onto": "onto"}
OSUM = ["idx", "iter_num", "fid_func_call_num", "grad_func_call_num", "fid_err", "grad_norm", "wall_time"]
YSUM = ["idx", "evo_dump_idx", "iter_num", "fid_func_call_num", "grad_func_call_num", "num_amps_changed",
        "num_timeslots_changed"]
NPLACES = 4


class Cfg:
    """One way of configuring the system under a behaviour."""

    def __init__(self, p, fidkind, cache, dtype, prop="DEF"):
        self.p, self.fidkind, self.cache, self.dtype, self.prop = p, fidkind, cache, dtype, prop
        self.fid = {"unit": "UNIT" if p.kind == "UNIT" else "DEF", "trace": "TRACEDIFF"}[fidkind]
        self.avail = {"amps", "gen", "prop", "fwd"} | ({"pgrad"} if cache else set()) | ({"onto"} if fidkind == "unit" else {"onwd"})
        self.full = self.avail | {"pgrad"}
        self.tag = "%s-%s-%s" % (p.tag, fidkind, "cached" if cache else "uncached")

    def evo_cfg(self, dtype):
        return dict(dtype=dtype, prop=self.prop, fid_type=self.fid, memory_optimization=0 if self.cache else 1)


class Stop(BaseException):
    pass


class DRun:
    """Replays one behaviour; report(property, key, detail)."""

    def __init__(self, cfg, ref, rec, report, stats, write, scratch_dir, seed):
        self.c, self.ref, self.report, self.stats, self.write = cfg, ref, report, stats, write
        self.p, self.h, self.rec = cfg.p, rec["h"], rec
        self.top, self.r = scratch_dir, rng("dump", seed)
        self.home = os.path.join(self.top, "home")
        os.makedirs(self.home)
        open(os.path.join(self.top, "plain"), "w").write("in the way")
        self.dtype = self.r.choice([None, "ndarray", "Qobj"])
        self.pos = 1
        self.nout = 0
        self.final = False
        self.seps = {}

    def both(self, key, d):
        for pr in ("P10", "P11"):
            self.report(pr, key, d)

    # -- places
    def place(self, side, n):
        """(directory, base, explicit summary file)"""
        t = self.top
        return {1: (os.path.join(t, "A"), "%sdump1" % side, None),
                2: (os.path.join(t, "A"), "other-" + side, None),
                3: ("relB/deep", {"o": "optimdump", "y": "dyndump"}[side], None),
                4: ("~/C", "named" + side, "own%s.csv" % side)}[n]

    def absdir(self, side, n):
        d = self.place(side, n)[0]
        if d.startswith("~"):
            return self.home + d[1:]
        return os.path.join(self.top, d)

    def set_place(self, side, n):
        ob = self.opt if side == "o" else self.dyn
        if n == 0:
            if "NONE" not in (self.h[0]["a"], self.h[0]["b"]) and not any(
                    (o["op"] == "where" and o["a"] == 4) or o["op"] == "level" for o in self.h):
                # not even the default directory can be made: there is no output at all
                os.environ["HOME"] = os.path.join(self.top, "plain", "nohome")
            if self.r.random() < 0.5:
                ob.dump_dir = os.path.join(self.top, "plain", "sub")
            else:
                ob.dump_dir = os.path.join(self.top, "plain")
            return
        d, b, s = self.place(side, n)
        # the order in which directory and names are chosen does not matter
        acts = [lambda: setattr(ob if self.r.random() < 0.5 else ob.dump, "dump_dir", d),
                lambda: setattr(ob.dump, "fname_base", b)]
        self.r.shuffle(acts)
        for a in acts:
            a()
        if s:
            ob.dump.summary_file = s
        sep = "," if n in (2, 4) else " "
        ob.dump.summary_sep = sep
        ob.dump.data_sep = "," if n == 4 else " "

    def seps_of(self, n):
        return ("," if n in (2, 4) else " "), ("," if n == 4 else " ")

    def run(self):
        import scipy.optimize as so, timeit
        old, oldcwd = os.environ.get("HOME"), os.getcwd()
        os.environ["HOME"] = self.home
        os.chdir(self.top)
        try:
            subs = [(getattr(so, n), self._fake(n)) for n in ("minimize", "fmin_bfgs", "fmin_l_bfgs_b", "fmin")]
            with optim.Patch(subs):
                self._run()
            if self.pos >= len(self.h):
                self.check()
        except Stop:
            pass
        finally:
            os.chdir(oldcwd)
            if old is None:
                del os.environ["HOME"]
            else:
                os.environ["HOME"] = old

    def _fake(self, name):
        def fake(*a, **k):
            return self._script(name, a, k)
        return fake

    def case(self, lv):
        return self.r.choice([lv, lv, lv.lower(), lv.capitalize()])

    def _run(self):
        p = self.p
        self.s = {"o": False, "y": False}
        try:
            self.opt = evo.build(p, self.c.evo_cfg(self.dtype), 1, len(p.pulses[0]), self.stats)
            self.dyn = self.opt.dynamics
            h = self.h[0]
            for ob, side, lv in ((self.opt, "o", h["a"]), (self.dyn, "y", h["b"])):
                ob.dump_to_file = self.write
                if lv != "NONE" or self.r.random() < 0.5:
                    ob.dumping = self.case(lv)
                if lv != "NONE":
                    self.set_place(side, 1)
            self.dyn.initialize_controls(p.array(1))
            if h["b"] == "NONE" and self.write:
                self.set_place("y", 1)
        except Exception:
            self.both("create-raises", short_tb())
            self.pos = len(self.h) + 1
            return
        self.levels(self.h[0])
        while self.pos < len(self.h):
            o = self.h[self.pos]
            self.pos += 1
            try:
                if o["op"] == "start":
                    self.run_opt(o)
                    if self.final:
                        return
                else:
                    self.act(o)
                    self.levels(o)
            except Stop:
                raise
            except Exception:
                if not getattr(self, "told", False):
                    self.both(o["op"] + "-raises", short_tb())
                self.pos = len(self.h) + 1
                return

    def run_opt(self, o):
        tc = self.opt.termination_conditions
        tc.fid_err_targ, tc.fid_goal, tc.min_gradient_norm = 0.0, None, 0.0
        tc.max_fid_func_calls, tc.max_wall_time, tc.max_iterations = 10 ** 6, 1e9, 10 ** 6
        self.started = o
        try:
            self.opt.run_optimization()
        except optim.Abort:
            self.final = True

    def _script(self, name, a, k):
        import inspect, scipy.optimize as so
        fun = a[0] if a else k.get("func", k.get("f", k.get("fun")))
        jac = k.get("fprime", k.get("jac"))
        cb = k.get("callback")
        self.told = False
        if self.write and self.was_off_o():
            self.set_place("o", 1)
        self.levels(self.started)
        buf = np.array(self.p.array(1).ravel())
        while self.pos < len(self.h):
            o = self.h[self.pos]
            self.pos += 1
            try:
                if o["op"] == "F":
                    buf[...] = self.p.array(o["a"]).ravel()
                    fun(buf)
                    buf[...] = 9.0
                elif o["op"] == "G":
                    buf[...] = self.p.array(o["a"]).ravel()
                    g = jac(buf)
                    g[...] = -4.0
                    buf[...] = 9.0
                elif o["op"] == "CB":
                    cb(buf)
                elif o["op"] == "ret":
                    x = self.p.array(o["a"]).ravel()
                    return x, 0.5, {"warnflag": 0, "task": "done", "nit": 1, "funcalls": 1, "grad": np.zeros_like(x)}
                else:
                    self.act(o)
                self.levels(o)
            except Exception:
                self.both(o["op"] + "-raises", short_tb())
                self.told = True
                self.pos = len(self.h) + 1
                raise optim.Abort()
        raise optim.Abort()

    def was_off_o(self):
        """whether the optimiser's dump was made by this start"""
        n = self.pos - 2
        return self.h[n]["ol"] == "NONE" if n >= 0 else False

    def act(self, o):
        op, side = o["op"], o["side"]
        ob = self.opt if side == "o" else self.dyn
        if op == "supply":
            a = self.p.array(o["a"])
            self.dyn.update_ctrl_amps(a)
            a[...] = 3.3
        elif op == "evo":
            self.dyn.compute_evolution()
        elif op == "reinit":
            off = self.dyn.dumping == "NONE"
            self.dyn.initialize_controls(self.p.array(o["a"]))
            if off and self.write:
                self.set_place("y", 1)
        elif op == "level":
            off = ob.dumping == "NONE"
            if off or self.r.random() < 0.6 or o["a"] == "NONE":
                ob.dumping = self.case(o["a"])
            else:
                ob.dump.level = self.case(o["a"])
            if off and o["a"] != "NONE":
                self.set_place(side, 1)
        elif op == "flag":
            setattr(ob.dump, FLAG[side][o["a"]], bool(o["b"]))
        elif op == "clear":
            ob.dump.clear()
        elif op == "where":
            self.set_place(side, o["a"])
        elif op == "writeout":
            self.writeout(o, ob, side)
        else:
            raise KeyError(op)

    def levels(self, o):
        for ob, want, side in ((self.opt, o["ol"], "o"), (self.dyn, o["yl"], "y")):
            got = ob.dumping
            if got != want:
                self.report("P10", "level-%s-after-%s" % (side, o["op"]), "%r, specified %r" % (got, want))
            elif ob.dump is not None and ob.dump.level != want:
                self.report("P10", "dump-level-%s" % side, "%r" % ob.dump.level)

    # -- expected data
    def err(self, i):
        r = self.ref[1, i]
        return r["PSU"] if self.c.fid == "UNIT" or (self.c.fid == "DEF" and self.p.kind == "UNIT") else r["TRACEDIFF"]

    def grad(self, i):
        r = self.ref[1, i]
        return np.asarray(r["gPSU"] if self.c.fid == "UNIT" or (self.c.fid == "DEF" and self.p.kind == "UNIT") else r["gTRACEDIFF"])

    def oper(self, kind, i):
        r = self.ref[1, i]
        return {"amps": lambda: self.p.array(i), "gen": lambda: r["dyn_gen"], "prop": lambda: r["prop"],
                "pgrad": lambda: r["prop_grad"], "fwd": lambda: r["fwd"], "onwd": lambda: r["onwd"],
                "onto": lambda: r["onto"]}[kind]()

    def osum(self, s):
        it = s["it"]
        return {"idx": s["idx"], "iter_num": s["nI"], "fid_func_call_num": None if it["nF"] < 0 else it["nF"],
                "grad_func_call_num": None if it["nG"] < 0 else it["nG"],
                "fid_err": self.err(it["err"]) if it["err"] else None,
                "grad_norm": float(np.sqrt(np.sum(self.grad(it["gn"]) ** 2))) if it["gn"] else None}

    def ysum(self, s):
        d = {"idx": s["idx"], "evo_dump_idx": None if s["link"] < 0 else s["link"]}
        if self.stats:
            d.update(iter_num=s["c"]["I"], fid_func_call_num=s["c"]["F"], grad_func_call_num=s["c"]["G"])
        if s["chg"] and s["chg"][0] >= 0:
            d.update(num_amps_changed=s["chg"][0], num_timeslots_changed=s["chg"][1])
        return d

    # -- comparison of memory
    def check(self):
        try:
            self.memory()
        except Exception:
            self.report("P10", "memory-raises", short_tb())
        try:
            self.files()
        except Exception:
            self.report("P11", "files-raise", short_tb())

    @staticmethod
    def same(g, v, tol=1e-9):
        if v is None or g is None:
            return v is None and g is None
        return abs(g - v) <= tol * (1 + abs(v))

    def memory(self):
        for ob, side in ((self.opt, "o"), (self.dyn, "y")):
            x, dump = self.rec[side], ob.dump
            rep = lambda k, d="": self.report("P10", side + "-" + k, d)
            if not x["on"]:
                if dump is not None:
                    rep("dump-exists", "")
                continue
            if dump is None:
                rep("dump-missing", "")
                continue
            for k, a in FLAG[side].items():
                want = x["summ"] if k == "summary" else k in x["sel"]
                if bool(getattr(dump, a)) != want:
                    rep("selected-" + a, "%r" % getattr(dump, a))
            if bool(dump.dump_any) != bool(x["sel"]):
                rep("dump_any", "")
            L = dump.iter_summary if side == "o" else dump.evo_summary
            if len(L) != len(x["sum"]):
                rep("number-of-summaries", "%d, specified %d" % (len(L), len(x["sum"])))
            else:
                for g, s in zip(L, x["sum"]):
                    for k, v in (self.osum(s) if side == "o" else self.ysum(s)).items():
                        if not self.same(getattr(g, k), v, 1e-8):
                            rep("summary-" + k, "%r, specified %r" % (getattr(g, k), v))
            if side == "o":
                for nm, log, vals in (("fid_err_log", dump.fid_err_log, [self.err(i) for i in x["err"]]),
                                      ("grad_norm_log", dump.grad_norm_log, [np.sqrt(np.sum(self.grad(i) ** 2)) for i in x["gn"]]),
                                      ("grad_log", dump.grad_log, [self.grad(i) for i in x["grad"]])):
                    if len(log) != len(vals):
                        rep(nm + "-length", "%d, specified %d" % (len(log), len(vals)))
                    elif not all(close(a, b, 1e-7) for a, b in zip(log, vals)):
                        rep(nm, "%s, specified %s" % (log[:3], vals[:3]))
                continue
            if len(dump.evo_dumps) != len(x["items"]):
                rep("number-of-items", "%d, specified %d" % (len(dump.evo_dumps), len(x["items"])))
                continue
            for it, s in zip(dump.evo_dumps, x["items"]):
                if it.idx != s["idx"]:
                    rep("item-idx", "%r" % it.idx)
                for k in ORDER:
                    g = getattr(it, ITEM[k])
                    if k not in s["kinds"]:
                        if g is not None and k in self.c.avail:
                            rep("item-unselected-" + k, "")
                        continue
                    if g is None:
                        rep("item-missing-" + k, "")
                    elif not self.opers_ok(k, g, s["i"]):
                        rep("item-" + k, "item %d differs from pulse %d" % (s["idx"], s["i"]))

    def opers_ok(self, k, g, i):
        w = self.oper(k, i)
        if k == "amps":
            return close(g, w, 1e-13)
        if len(g) != len(w):
            return False
        if k == "pgrad":
            return g.shape == (len(w), len(w[0])) and all(close(full(g[a, b]), w[a][b]) for a in range(len(w)) for b in range(len(w[0])))
        return all(close(full(a), b) for a, b in zip(g, w))

    # -- files
    def writeout(self, o, ob, side):
        dest = o["a"]
        self.nout += 1
        if dest == "dir":
            ob.dump.writeout()
            return
        path = os.path.join(self.top, "out%d" % self.nout)
        if dest == "file":
            ob.dump.writeout(path)
        else:
            with open(path, "wb") as f:
                f.write(b"")
                ob.dump.writeout(f)
                if f.closed:
                    self.report("P11", "stream-closed", "")
                    return
        x = o["out"]
        rep = lambda k, d="": self.report("P11", "%s-%s-%s" % (side, dest, k), d)
        lines = open(path).read().splitlines()
        sep, dsep = ob.dump.summary_sep, ob.dump.data_sep
        if x["summ"] and x["sum"]:
            n = 1 + len(x["sum"])
            self.summary(lines[:n], x["sum"], side, sep, rep)
            lines = lines[n:]
        want = []
        if side == "o":
            if "err" in x["sel"]:
                want.append(("fidelity error", None, np.array([self.err(i) for i in x["err"]]).reshape(-1, 1)))
            if "gn" in x["sel"]:
                want.append(("norm", None, np.array([np.sqrt(np.sum(self.grad(i) ** 2)) for i in x["gn"]]).reshape(-1, 1)))
            if "grad" in x["sel"]:
                for n, i in enumerate(x["grad"], 1):
                    want.append(("gradients", [n], self.grad(i)))
            want = [w for w in want if len(w[2])]
        else:
            for it in x["items"]:
                want += self.item_blocks(it, True)
        # operators in one file are separated by their own separator or blanks
        self.blocks(lines, want, dsep, rep)

    def item_blocks(self, it, titles):
        want = []
        for k in ORDER:
            if k in it["kinds"]:
                want += self.kind_blocks(k, it["i"], TITLE[k] if titles else None)
        return want

    def kind_blocks(self, k, i, title):
        w = self.oper(k, i)
        if k == "amps":
            return [(title, None, np.asarray(w))]
        if k == "pgrad":
            return [(title if a == b == 0 else None, [a, b], w[a][b]) for a in range(len(w)) for b in range(len(w[0]))]
        return [(title if n == 0 else None, [n], m) for n, m in enumerate(w)]

    @staticmethod
    def number(t):
        t = t.strip().strip("()").replace("+-", "-")
        return complex(t)

    def parse(self, lines, sep):
        out, label, rows = [], [], []
        for ln in lines:
            try:
                r = None
                for sp in (sep, None, ","):
                    try:
                        tk = [t for t in ln.split(sp if sp != " " else None) if t.strip()]
                        r = [self.number(t) for t in tk]
                        break
                    except ValueError:
                        r = None
                if not r:
                    raise ValueError
                rows.append(r)
            except ValueError:
                if rows:
                    out.append((label, rows))
                    label, rows = [], []
                label.append(ln)
        if rows:
            out.append((label, rows))
            label = []
        return out, label

    def blocks(self, lines, want, sep, rep):
        got, rest = self.parse(lines, sep)
        if len(got) != len(want):
            rep("sections", "%d matrices, specified %d" % (len(got), len(want)))
            return
        for (lab, rows), (title, nums, m) in zip(got, want):
            m = np.asarray(m)
            try:
                A = np.array(rows)
            except ValueError:
                rep("ragged", "%s" % lab)
                return
            tol = 1e-5 if title == "amps" or (nums is None and title is None) else 1e-7
            if A.shape != m.shape or not close(A, m, tol):
                rep("content-" + (title or "matrix").replace(" ", "-"), "%s: %s, specified %s" % (lab, A.ravel()[:4], m.ravel()[:4]))
                return
            if title and not any(title in s.lower() for s in lab):
                rep("title", "%s for %s" % (lab, title))
                return
            if nums is not None:
                found = [int(x) for x in re.findall(r"\d+", lab[-1])] if lab else []
                if found[-len(nums):] != nums and (found[:len(nums)] != nums):
                    rep("label", "%s for %s" % (lab, nums))
                    return

    def summary(self, lines, recs, side, sep, rep):
        names = OSUM if side == "o" else YSUM
        sp = None if sep == " " else sep
        head = [t.strip() for t in lines[0].split(sp)]
        if any(n not in head for n in names):
            rep("summary-header", "%s" % head)
            return
        if len(lines) != 1 + len(recs):
            rep("summary-lines", "%d lines for %d records" % (len(lines), len(recs)))
            return
        for ln, s in zip(lines[1:], recs):
            cells = [t.strip() for t in ln.split(sp)]
            if len(cells) != len(head):
                rep("summary-columns", ln)
                return
            row = dict(zip(head, cells))
            for k, v in (self.osum(s) if side == "o" else self.ysum(s)).items():
                c = row[k]
                ok = (c == "None") if v is None else (c != "None" and abs(float(c) - v) <= 2e-3 * abs(v) + 1e-9)
                if not ok:
                    rep("summary-" + k, "%r, specified %r" % (c, v))
                    return

    def files(self):
        expected = set()
        for side in ("o", "y"):
            for n in range(1, NPLACES + 1):
                f = self.rec["files"][side][n - 1]
                d, b, own = self.place(side, n)
                d = self.absdir(side, n)
                ext = "txt"
                rep = lambda k, x="": self.report("P11", "%s-run-%s" % (side, k), "place %d: %s" % (n, x))
                sep, dsep = self.seps_of(n)

                def want(name, present=True):
                    path = os.path.join(d, name)
                    if not present:
                        return None
                    expected.add(path)
                    if not os.path.exists(path):
                        rep("file-missing-" + re.sub(r"\d+", "N", name.replace(b, "base")), path)
                        return None
                    return open(path).read().splitlines()
                L = want(own or "%s-summary.%s" % (b, ext), f["sum"] != ["-"])
                if L is not None:
                    if f["sum"]:
                        self.summary(L, f["sum"], side, sep, rep)
                    elif L:
                        rep("summary-not-empty", str(L[:2]))
                if side == "o":
                    for key, nm, fn in (("err", "fid_err_log", self.err), ("gn", "grad_norm_log", lambda i: np.sqrt(np.sum(self.grad(i) ** 2)))):
                        L = want("%s-%s.%s" % (b, nm, ext), f[key] != ["-"])
                        if L is not None:
                            try:
                                v = [float(t) for t in L]
                            except ValueError:
                                v = None
                            w = [fn(i) for i in f[key]]
                            if v is None or len(v) != len(w) or (w and not close(v, w, 1e-7)):
                                rep(nm, "%s, specified %s" % (L[:4], w[:4]))
                    for k, i in enumerate(f["grad"], 1):
                        L = want("%s-fid_err_gradients%d.%s" % (b, k, ext))
                        if L is not None:
                            self.blocks(L, [(None, None, self.grad(i))], dsep, rep)
                else:
                    for k, it in enumerate(f["items"]):
                        for kind in ORDER:
                            if it[kind]:
                                L = want("%s-evo%d-%s.%s" % (b, k, ITEM[kind], ext))
                                if L is not None:
                                    self.blocks(L, self.kind_blocks(kind, it[kind], None), dsep, lambda a, x="": rep(kind + "-" + a, x))
        lost = any(o["op"] == "where" and o["a"] == 0 for o in self.h)
        for d in set(self.absdir(s, n) for s in "oy" for n in range(1, NPLACES + 1)):
            for root, dirs, fs in os.walk(d):
                for x in fs:
                    pth = os.path.join(root, x)
                    if pth not in expected and not lost:
                        self.report("P11", "unexpected-file", pth[len(self.top):])
        if open(os.path.join(self.top, "plain")).read() != "in the way":
            self.report("P11", "overwrote", "")
        default = os.path.join(self.home, ".qtrl_dump")
        if not lost and os.path.isdir(default) and any(fs for _, _, fs in os.walk(default)):
            self.report("P11", "written-to-default-directory", str(os.listdir(default)))


def variants():
    P = {p.tag: p for p in evo.problems("quick")}
    out = []
    for tag, kind, cache, prop in (("u1", "unit", True, "DEF"), ("u1", "trace", True, "FRECHET"), ("u5", "unit", False, "DEF"),
                                   ("u4", "unit", True, "AUG_MAT"), ("u3", "unit", True, "FRECHET"), ("g1", "trace", True, "DEF"), ("g2", "trace", False, "DEF"),
                                   ("s2", "trace", True, "DEF"), ("g3", "trace", True, "AUG_MAT")):
        out.append(Cfg(P[tag], kind, cache, None, prop))
    return out


V = {}
WORDS = {}


def _worker(job):
    pid, tag, stats, write, recs, seed = job
    c = V[tag]
    ref = c.p.reference(WORDS[c.p.shape], "postop")
    dev = []
    base = tempfile.mkdtemp(prefix="dump-", dir=scratch())
    try:
        for n, rec in enumerate(recs):
            def rep(prop, key, d=""):
                if prop == pid and len(dev) < 30:
                    dev.append(("%s:%s" % (tag, key), dict(detail=d, write=write, stats=stats,
                                history=[(o["op"], o["side"], o["a"], o["b"]) for o in rec["h"]])))
            d = os.path.join(base, "b%d" % n)
            os.makedirs(d)
            DRun(c, ref, rec, rep, stats, write, d, (seed, n)).run()
            shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return len(recs), dev


def run(pid):
    import_repo()
    ck = Check(pid)
    thorough = TIER == "thorough"
    ck.assumptions = ["the minimiser is scripted", "pulses of 2-4 slots; values recorded are compared with an independent exponential",
                      "files are read back with a parser that accepts any spacing"]
    cfgs = variants()
    for c in cfgs:
        V[c.tag] = c
    for shape in sorted(set(c.p.shape for c in cfgs)):
        r = run_tlc("Evo", dict(Pulses=evo.SHAPES[shape], FidKind="unit", NSys=1, InitAt={1}, Ops={"evo"}, MaxOps=1),
                    invariants=["TypeOK", "EmitWords"], workers=1)
        WORDS[shape] = [x["w"] for x in r.emitted]
    allops = {"run", "dyn", "reinit", "level", "flag", "clear", "where", "writeout"}
    if pid == "P10":
        ex = [({"run", "level"}, 4, False), ({"run", "flag"}, 4, False), ({"level", "flag", "clear"}, 4, False), ({"dyn", "level", "clear"}, 4, False)]
        sim = [(allops - {"writeout", "where"}, False), ({"run", "dyn", "reinit", "clear"}, False), ({"run", "dyn", "level", "clear"}, True), ({"run", "dyn", "flag", "reinit"}, False)]
    else:
        ex = [({"run", "writeout"}, 4, False), ({"run", "writeout", "dyn"}, 4, True), ({"run", "flag"}, 4, True), ({"run", "where"}, 4, True)]
        sim = [(allops, True), (allops, False), ({"run", "dyn", "clear", "where", "writeout"}, True), ({"run", "dyn", "flag", "writeout"}, True),
               ({"run", "dyn", "writeout"}, False)]
    jobs = []
    tasks = []
    for nc, c in enumerate(cfgs):
        q = rng(pid, c.tag)
        stats = q.random() < 0.7
        # quick: every exhaustive model once, spread over the configurations
        E = ex if thorough else [e for k, e in enumerate(ex) if (2 * k + SEED) % len(cfgs) == nc]
        S = sim
        pulses = [p for p in evo.SHAPES[c.p.shape] if len(p) == len(evo.SHAPES[c.p.shape][0])]
        const = dict(Pulses=pulses, FidKind=c.fidkind, DFull=c.full, DAvail=c.avail, Stats=stats, Places=NPLACES)
        for ops, depth, w in E:
            tasks.append((c, stats, w, dict(const, Pulses=pulses[:2], Ops=ops, MaxOps=depth, Write=w), None))
        for ops, w in S:
            tasks.append((c, stats, w, dict(const, Ops=ops, MaxOps=q.choice([9, 14, 20]), Write=w), 400 if thorough else 45))

    def one(t):
        c, stats, w, const, num = t
        if num:
            r = run_tlc("Dump", const, invariants=INV, emit="Emit", workers=1, simulate=num, depth=const["MaxOps"] + 1, heap="2g")
        else:
            r = run_tlc("Dump", const, invariants=INV, properties=["RecordsGrow"], emit="Emit", workers=2, heap="4g")
        return t, r
    with ThreadPoolExecutor(6) as exr:
        for (c, stats, w, const, num), r in exr.map(one, tasks):
            ck.tlc(r, "Dump %s %s write=%s %s" % (c.tag, "+".join(sorted(const["Ops"])), w, "simulated depth %d" % const["MaxOps"] if num else "exhaustive depth %d" % const["MaxOps"]))
            q = rng(pid, c.tag, repr(sorted(const["Ops"])), w)
            R = sorted(r.emitted, key=lambda x: json.dumps(x["h"], sort_keys=True))
            if num:    # one behaviour per simulated run
                by = collections.OrderedDict()
                for x in R:
                    by.setdefault(json.dumps([(o["op"], o["side"], o["a"]) for o in x["h"][:-1]]), []).append(x)
                R = [q.choice(v) for v in by.values()]
            n = (1200 if thorough else 60) if num else (1500 if thorough else 80)
            if len(R) > n:
                R = q.sample(R, n)
            if R:
                ck.sample({"cfg": c.tag, "history": [(o["op"], o["side"], o["a"], o["b"]) for o in R[0]["h"]]})
            for a in range(0, len(R), 60):
                jobs.append((pid, c.tag, stats, w, R[a:a + 60], (c.tag, repr(sorted(const["Ops"])), w, a)))
    for n, dev in pmap(_worker, jobs, chunk=1):
        ck.traces(n)
        for k, d in dev:
            ck.viol(k, d)
    if pid == "P10":
        import p_optim
        probs = p_optim.prepare(ck, optim.oproblems(), "P10")
        p_optim.replay(ck, "P10", probs, thorough, 700 if thorough else 50)
    return ck
