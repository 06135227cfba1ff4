"""C11, C12, C13, C15: statistics, Monte Carlo resolution and generators in one simulated process."""
import copy
import enum
import hashlib
import importlib
import inspect
import json
import math
import os
import pkgutil
import random
import sys

import numpy as np

from sim import kernel, runner
from . import laws
from .base import Prop

REAL = ["pysatl_criterion.statistics, generator, core.distributions, hypothesis_testing, utils unmodified", "numpy, scipy and scikit-learn native code",
        "numpy's global random generator (seeded per run)"]
STUBS = ["thread scheduler and locks (simulated): threads are pre-empted at any line of the code under test, at every lock and at every draw of random numbers",
         "asynchronous exceptions and failing allocations (injected at lines and at draws)"]
ASSUME = ["pre-emption inside numpy and scipy happens only at lock operations and at calls of a distribution's rvs",
          "numbers are compared with a relative tolerance of 1e-7"]

_cat = None


def catalogue():
    """name -> class of every shipped concrete goodness-of-fit statistic."""
    global _cat
    if _cat is None:
        import pysatl_criterion.statistics.goodness_of_fit as g
        for m in pkgutil.iter_modules(g.__path__):
            importlib.import_module(g.__name__ + "." + m.name)
        from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic as A
        out, todo = {}, [A]
        while todo:
            c = todo.pop()
            todo += c.__subclasses__()
            if c.__module__.startswith("pysatl_criterion.") and not inspect.isabstract(c):
                out[c.__module__.rsplit(".", 1)[1] + "." + c.__name__] = c
        _cat = dict(sorted(out.items()))
    return _cat


# statistics whose cost grows steeply with the sample size
HEAVY = {"exponent.AhsanullahExponentialityGofStatistic": 12, "exponent.RossbergExponentialityGofStatistic": 8,
         "exponent.HollanderProshanExponentialityGofStatistic": 14}

# constructor parameters of the null hypothesis, per family
NULLS = {
    "normal": [dict(mean=0, var=1), dict(mean=3, var=4), dict(mean=-2.5, var=0.25), dict(mean=0, var=9)],
    "exponential": [dict(lam=1), dict(lam=0.5), dict(lam=3), dict(lam=0.1)],
    "weibull": [dict(a=1, k=5), dict(a=1, k=1), dict(a=2, k=1.5), dict(a=1.5, k=3)],
    "uniform": [dict(a=0, b=1), dict(a=-1, b=2), dict(a=3, b=7), dict(a=0, b=0.5)],
    "student": [dict(df=1), dict(df=3), dict(df=7.5), dict(df=3, loc=2, scale=0.5), dict(df=5, loc=-1), dict(df=4, scale=3)],
    "gamma": [dict(alpha=1, beta=1), dict(alpha=2, beta=3), dict(alpha=3.3, beta=0.5), dict(alpha=1, beta=2)],
    "beta": [dict(alpha=1, beta=1), dict(alpha=2, beta=3), dict(alpha=3.3, beta=1.2), dict(alpha=2, beta=2)],
    "log_normal": [dict(s=1, scale=1), dict(s=0.5, scale=2), dict(s=1, scale=0.5), dict(s=0.3, scale=1)],
}


def null_params(r, fam):
    """Admissible parameters of a null hypothesis, by the names that the constructors use."""
    if r.random() < 0.6:
        return dict(r.choice(NULLS[fam]))
    pos, loc = lambda lo, hi: laws._num(r, lo, hi), lambda w: laws._loc(r, w)
    if fam == "normal":
        return dict(mean=loc(10), var=pos(0.1, 20))
    if fam == "exponential":
        return dict(lam=pos(0.05, 20))
    if fam == "weibull":
        return dict(a=pos(0.7, 5), k=pos(0.7, 8))
    if fam == "uniform":
        a = loc(10)
        return dict(a=a, b=round(a + pos(0.2, 20), 6))
    if fam == "student":
        p = dict(df=pos(1, 40))
        if r.random() < 0.5:
            p["loc"] = loc(5)
        if r.random() < 0.5:
            p["scale"] = pos(0.2, 5)
        return p
    if fam == "gamma":
        return dict(alpha=pos(0.8, 12), beta=pos(0.2, 10))
    if fam == "beta":
        return dict(alpha=pos(0.8, 8), beta=pos(0.8, 8))
    if fam == "log_normal":
        return dict(s=pos(0.2, 2), scale=pos(0.2, 8))
    raise KeyError(fam)


def alternatives():
    from pysatl_criterion.statistics.alternative import AlternativeType
    return AlternativeType


def extra_kwargs(r, cls, fam):
    """Non-default values for the other constructor parameters, now and then."""
    kw = {}
    try:
        ps = inspect.signature(cls.__init__).parameters
    except (TypeError, ValueError):
        return kw
    null = set().union(*NULLS[fam])
    for n, p in list(ps.items())[1:]:
        if n in null or p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL) or r.random() < 0.6:
            continue
        d = p.default
        if n == "alternative_type":
            kw[n] = {"enum": r.choice(["LEFT", "RIGHT", "TWO_TAILED"])}
        elif isinstance(d, bool):
            kw[n] = not d
        elif isinstance(d, int):
            kw[n] = r.choice([d, d + 1, d + 3])
        elif isinstance(d, float):
            kw[n] = r.choice([d, d * 1.5, d * 0.5])
    return kw


def null_kwargs(r, cls, fam, default=0.3):
    ps = inspect.signature(cls.__init__).parameters
    if r.random() < default:
        return {}
    kw = null_params(r, fam)
    if any(p.kind == p.VAR_KEYWORD for p in ps.values()):
        return dict(kw)
    return {k: v for k, v in kw.items() if k in ps}


def exec_kwargs(r, cls):
    kw = {}
    try:
        ps = inspect.signature(cls.execute_statistic).parameters
    except (TypeError, ValueError):
        return kw
    for n, p in list(ps.items())[2:]:
        if p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL) or isinstance(p.default, (bool, str)) or r.random() < 0.5:
            continue
        if isinstance(p.default, int):
            kw[n] = p.default + r.choice([0, 1])
        elif isinstance(p.default, float):
            kw[n] = p.default * r.choice([1, 0.9, 0.6])
    return kw


def build(o):
    """Object described by {"cls": name, "kw": {...}}."""
    kw = {}
    for k, v in o["kw"].items():
        if isinstance(v, dict):
            A = alternatives()
            v = getattr(A, v["enum"], None) or list(A)[0]
        kw[k] = v
    return catalogue()[o["cls"]](**kw)


def reseeded(hist):
    """Operations during which a client may have set the generator back to an earlier state."""
    seeds = [h for h in hist if h["op"]["k"] == "seed"]
    if len({h["op"]["s"] for h in seeds}) == len(seeds):
        return lambda h: False
    return lambda h: any((s["ret"] is None or s["ret"] > h["inv"]) and s["inv"] < h["ret"] for s in seeds)


class Unbuildable:
    """Stands for an object whose constructor rejects the parameters."""

    def __init__(self, e):
        self.e = (type(e), str(e))

    def execute_statistic(self, *a, **k):
        raise self.e[0](self.e[1])


def build_or(o):
    try:
        return build(o)
    except Exception as e:                   # noqa: BLE001
        return Unbuildable(e)


def fam_of(cls):
    return cls.distribution().value


def full_null(cls, kw):
    """Hypothesis parameters that a constructor call states, by constructor names."""
    fam = fam_of(cls)
    out = {}
    ps = inspect.signature(cls.__init__).parameters
    names = set().union(*NULLS[fam])
    for n, p in ps.items():
        if n in names and p.default is not inspect._empty:
            out[n] = p.default
    out.update({k: v for k, v in kw.items() if k in names})
    return out


# ---------------------------------------------------------------- sample buffers
def content(b):
    """Values of a buffer description, deterministic."""
    g = np.random.Generator(np.random.PCG64(b["seed"]))
    k = b.get("shape", "law")
    n = b["n"]
    fam = b["fam"]
    par = b.get("par") or NULLS[fam][1 if fam != "weibull" else 0]
    x = laws.law(fam, par).sample(g, n)
    if k == "ties":
        x = np.round(x, 1)
    elif k == "const":
        x = np.full(n, x[0] if n else 0.0)
    elif k == "nan" and n:
        x = x.copy()
        x[int(g.integers(n))] = np.nan
    elif k == "neg":
        x = -x
    elif k == "wide":
        x = x * 1e3
    elif k == "sorted":
        x = np.sort(x)
    elif k == "desc":
        x = np.sort(x)[::-1].copy()
    return [float(v) for v in x]


def ints(vals):
    return [int(v * 10) if abs(v) < 1e15 else 0 for v in vals]      # NaN and infinities become 0


def shaped(vals, form):
    if form == "list":
        return list(vals)
    if form == "tuple":
        return tuple(vals)
    a = np.array(vals, dtype=float)
    if form == "ro":
        a.flags.writeable = False
    elif form == "strided":
        w = np.zeros(2 * len(vals))
        w[::2] = vals
        return w[::2]
    elif form == "int":
        return np.array(ints(vals))
    elif form == "rawint":
        return np.array(vals)
    elif form == "f32":
        return a.astype(np.float32)
    return a


def snap(buf):
    if isinstance(buf, np.ndarray):
        return (type(buf).__name__, buf.dtype.str, buf.shape, buf.tobytes())
    return (type(buf).__name__, [type(x).__name__ for x in buf], [repr(x) for x in buf])


def mutate(buf, vals, how):
    """The caller reuses its buffer (lists and writable arrays)."""
    if how == "refill":
        if isinstance(buf, list):
            buf[:] = vals
        else:
            buf[...] = np.asarray(vals[:len(buf)]).astype(buf.dtype) if buf.dtype.kind == "f" else ints(vals[:len(buf)])
    elif how == "reverse":
        buf[:] = list(buf)[::-1]
    elif how == "junk":
        buf[:] = [7 + i for i in range(len(buf))]


def value_of(v):
    """Comparable form of a statistic's value."""
    if v is None:
        return ["none"]
    try:
        a = np.asarray(v)
        if a.dtype == object:
            return ["other", type(v).__name__]
        return ["num", [float(t) for t in a.astype(float).ravel()]]
    except Exception:                        # noqa: BLE001
        return ["other", type(v).__name__]


def close(a, b):
    if a[0] != b[0]:
        return False
    if a[0] != "num":
        return a == b
    if len(a[1]) != len(b[1]):
        return False
    for x, y in zip(a[1], b[1]):
        if x == y or (x != x and y != y):
            continue
        if x != x or y != y or math.isinf(x) or math.isinf(y):
            return False
        if abs(x - y) > 1e-7 * max(abs(x), abs(y)) + 1e-10:
            return False
    return True


# ---------------------------------------------------------------- seams
class Null:
    def write(self, *a):
        return 0

    def flush(self):
        pass


_seamed = False


def draw_seam():
    """Each draw through scipy is a yield point and can fail."""
    global _seamed
    if _seamed:
        return
    _seamed = True
    from scipy.stats import _distn_infrastructure as d
    for cls in (d.rv_generic, d.rv_continuous):
        if "rvs" not in cls.__dict__:
            continue
        orig = cls.__dict__["rvs"]

        def rvs(self, *a, __orig=orig, **k):
            if kernel.current_task() is None:
                return __orig(self, *a, **k)
            sim = kernel.CURRENT
            sim.kinds["draw"] += 1
            sim.point("native", 1e-5, "draw")
            f = sim.faults.draw("rng", ["nomem", "error"])
            if f:
                raise MemoryError("injected: allocation failed in a draw") if f["kind"] == "nomem" else OSError("injected: entropy source failed")
            r = __orig(self, *a, **k)
            sim.point("native", 1e-5, "drawn")
            return r
        cls.rvs = rvs


def deep_frames():
    """Let threads be pre-empted inside scipy's sampling front end as well."""
    return None


class World:
    """One simulated process with client threads; subclasses execute the operations."""

    def __init__(self, spec):
        self.spec = spec
        ph = spec["phases"][0]
        sc = spec.get("sched", {})
        fs = spec.get("faults", {})
        if "phases" in sc:
            sc = sc["phases"][0] if sc["phases"] else {"mode": "explicit"}
        if "phases" in fs:
            fs = fs["phases"][0] if fs["phases"] else {"mode": "explicit"}
        self.sim = kernel.Sim(spec["seed"], sched=sc, faults=fs, max_steps=spec.get("max_steps", 2000000))
        self.sim.trace = [] if spec.get("trace") else None
        self.sim.line_faults = bool(spec.get("line_faults"))
        self.ph = ph
        np.random.seed(int(hashlib.blake2b(spec["seed"].encode(), digest_size=4).hexdigest(), 16))
        draw_seam()
        self.out = sys.stdout
        sys.stdout = Null()

    def run(self):
        for c, ops in self.ph["clients"].items():
            self.sim.spawn(c, self.client(ops), "p0")
        try:
            with np.errstate(all="ignore"):
                self.sim.run()
        finally:
            sys.stdout = self.out
        return self

    def client(self, ops):
        def body():
            task = self.sim.current
            for op in ops:
                task.nofault = 1 if op.get("quiet") else 0
                rec = self.sim.op_begin(op["id"], op)
                try:
                    out = ["ok", self.do(op)]
                except kernel.HarnessError:
                    raise
                except (Exception, KeyboardInterrupt) as e:   # noqa: BLE001
                    out = ["fail", type(e).__name__, str(e)[:200]]
                    e.__traceback__ = None
                    del e
                self.sim.op_end(rec, out)
        return body

    def fired_in(self, opid):
        return [k for k in self.sim.faults.record if k.split("|", 1)[0] == opid]

    def stats(self):
        s = self.sim
        return {"fired": dict(s.faults.fired), "steps": s.steps, "switches": s.switches, "sim_s": s.now - s.t0,
                "probes": dict(s.probes), "kinds": dict(s.kinds), "ops": self.opcount(), "digest": s.digest.hexdigest(),
                "inter": hashlib.blake2b((s.swdigest.hexdigest() + json.dumps(s.faults.record, sort_keys=True) + self.spec["seed"]).encode(),
                                         digest_size=12).hexdigest(), "trace": s.trace or []}

    def opcount(self):
        c = {}
        for h in self.sim.history:
            k = h["op"]["k"] + "." + h["out"][0]
            c[k] = c.get(k, 0) + 1
        return c

    def rec(self):
        s = self.sim
        return {"sched": [{"mode": "explicit", "switches": s.sched.record if s.sched.mode == "random" else s.sched.explicit}],
                "faults": [{"mode": "explicit", "list": s.faults.record}]}

    def result(self, spec, v):
        st = self.stats()
        hist = [f"{h['task']}/{h['id']} [{h['inv']},{h['ret']}] {json.dumps(h['op'])[:120]} -> {str(h['out'])[:80]}" for h in self.sim.history]
        sample = {"seed": spec["seed"], "ops": hist[:10], "faults": dict(list(self.sim.faults.record.items())[:6]),
                  "switches": self.sim.switches}
        if v is not None:
            v = {"cls": v[0], "text": v[1], "sig": v[2] if len(v) > 2 else v[0]}
        return v, st, self.rec(), (hist if spec.get("trace") else sample)


class CalcProp(Prop):
    real, stubs, assumptions = REAL, STUBS, ASSUME

    def sched(self, r):
        return {"mode": "random"} if r.random() < 0.8 else {"mode": "random", "concurrency": False}

    def elements(self, spec):
        out = [["op", 0, o["id"]] for ops in spec["phases"][0]["clients"].values() for o in ops]
        for i, f in enumerate(spec["faults"].get("phases", [])):
            out += [["fault", i, k] for k in f.get("list", {})]
        for i, f in enumerate(spec["sched"].get("phases", [])):
            out += [["switch", i, k] for k in f.get("switches", {})]
        return out

    def drop(self, spec, els):
        s = copy.deepcopy(spec)
        gone = {json.dumps(e) for e in els}
        for c, ops in s["phases"][0]["clients"].items():
            s["phases"][0]["clients"][c] = [o for o in ops if json.dumps(["op", 0, o["id"]]) not in gone]
        for i, f in enumerate(s["faults"].get("phases", [])):
            f["list"] = {k: v for k, v in f["list"].items() if json.dumps(["fault", i, k]) not in gone}
        for i, f in enumerate(s["sched"].get("phases", [])):
            f["switches"] = {k: v for k, v in f["switches"].items() if json.dumps(["switch", i, k]) not in gone}
        return s


# ---------------------------------------------------------------- C11
class EvalWorld(World):
    def __init__(self, spec):
        super().__init__(spec)
        self.objs = [build_or(o) for o in spec["objs"]]
        self.bufs = [shaped(content(b), b["form"]) for b in spec["bufs"]]
        self.before = None

    def do(self, op):
        if op["k"] == "mut":
            mutate(self.bufs[op["buf"]], content(op["new"]) if op.get("new") else None, op["how"])
            return None
        obj = build_or(self.spec["objs"][op["obj"]]) if op.get("fresh") else self.objs[op["obj"]]
        if "dec" in op:
            from pysatl_criterion.hypothesis_testing.goodness_of_fit_test import goodness_of_fit_test as G

            class R(G.AbstractLimitDistributionResolver):
                def resolve(self, statistic, sample_size):
                    return [0.0, 1.0]
            m = (G.PValueDecisionMethod if op["dec"] == "p" else G.CriticalValueDecisionMethod)(R())
            return self.guard(op, lambda b: G.GoodnessOfFitTest(obj).test(b, 0.1, m).statistic)
        return self.guard(op, lambda b: obj.execute_statistic(b, **op.get("kw", {})))

    def guard(self, op, fn):
        buf = self.bufs[op["buf"]]
        was = snap(buf)
        try:
            return value_of(fn(buf))
        finally:
            if snap(buf) != was:
                self.spec.setdefault("_changed", []).append(op["id"])


def reference(arg):
    """One evaluation in a pristine process: value and number of lines executed."""
    o, vals, form, kw, dec = arg
    spec = {"seed": "ref", "objs": [o], "bufs": [], "phases": [{"clients": {"a": [{"id": "r", "k": "ev", "obj": 0, "buf": 0, "kw": kw, "fresh": 0,
                                                                                  **({"dec": dec} if dec else {})}]}}],
            "sched": {"mode": "explicit"}, "faults": {"mode": "explicit", "list": {}}, "max_steps": 60000}
    w = EvalWorld(spec)
    w.bufs = [shaped(vals, form)]
    w.run()
    h = w.sim.history[0]
    return h["out"], w.sim.steps, w.sim.stop_reason


def backwards(spec):
    """All evaluations of a battery in one fresh process, in reverse order and each on an object and a buffer of its own."""
    ops = [dict(o, fresh=1) for o in reversed(spec["phases"][0]["clients"]["t0"])]
    w = EvalWorld(dict(spec, seed="ref", phases=[{"clients": {"t0": ops}}], max_steps=150000))
    w.run()
    return {h["id"]: h["out"] for h in w.sim.history if h["ret"] is not None}, w.sim.steps


class C11(CalcProp):
    id = "C11"
    rule = ("a run takes 1-3 of the shipped statistics with several parameter sets and sample buffers (lists, arrays, read-only, strided, integer, ties, "
            "constant, NaN; shared between threads or reused and overwritten between calls) and lets 1-3 threads evaluate them in random order on shared "
            "and fresh objects, with threads pre-empted at any line and evaluations interrupted at any line; every value is compared with the value of that "
            "single evaluation in a pristine forked process (two fifths of the runs: about 50 evaluations of one statistic on every kind of sample, against the same in reverse order on fresh objects; one fifth: fourteen statistics on ordinary and degenerate samples, likewise), every sample with its state before the call; non-trivial = at least one thread switch or fault")
    quick = {"wall": 50, "runs": 200000, "timeout": 60, "min_wall": 60}

    def gen(self, seed, i):
        r = self.rng(seed, i)
        cat = catalogue()
        names = list(cat)
        first = names[(i * 7 + seed * 13) % len(names)] if r.random() < 0.8 else r.choice(names)
        fam = fam_of(cat[first])
        pool = [first]
        if r.random() < 0.5:
            same = [n for n in names if n.split(".")[0] == first.split(".")[0]]
            pool += r.sample(same, min(len(same), r.choice([1, 2])))
        if i % 5 == 2:
            return self.parade(r, f"C11:{seed}:{i}", names)
        if i % 5 < 2:
            return self.battery(r, f"C11:{seed}:{i}", names[(i // 5 * 2 + i % 5 + seed * 13) % len(names)])
        objs = []
        for n in pool:
            for _ in range(r.choice([1, 2, 2, 3]) if n == first else 1):
                kw = null_kwargs(r, cat[n], fam, 0.4)
                kw.update(extra_kwargs(r, cat[n], fam))
                objs.append({"cls": n, "kw": kw})
        ncl = r.choice([1, 1, 2, 2, 3])
        hi = min([HEAVY.get(n, 30) for n in pool])
        sizes = [r.randint(4, hi) for _ in range(2)]
        if r.random() < 0.15:
            sizes.append(r.choice([1, 2, 3, min(hi, 25)]))
        if hi == 30 and r.random() < 0.12:
            sizes.append(r.choice([51, 64, 101, 150]))
        bufs = []

        def newbuf(owner):
            form = r.choice(["list", "list", "arr", "arr", "arr", "ro", "strided", "int", "f32", "tuple"])
            b = {"fam": fam, "n": r.choice(sizes), "seed": r.randrange(1 << 30), "form": form, "owner": owner,
                 "shape": r.choices(["law", "ties", "const", "nan", "neg", "wide", "sorted", "desc"], [60, 8, 3, 3, 4, 6, 12, 5])[0]}
            bufs.append(b)
            return len(bufs) - 1
        shared = [newbuf(None) for _ in range(r.choice([0, 1, 2]))]
        clients = {}
        n = 0
        for c in range(ncl):
            own = [newbuf(c) for _ in range(r.choice([1, 2, 3]))]
            ops = []
            for _ in range(r.choice([2, 3, 4, 6, 8]) if ncl < 3 else r.choice([2, 3, 4])):
                n += 1
                if ops and r.random() < 0.25:
                    b = r.choice(own)
                    if bufs[b]["form"] in ("list", "arr", "f32", "strided"):
                        how = r.choice(["refill", "refill", "refill", "reverse", "junk"])
                        o = {"id": f"o{n}", "k": "mut", "buf": b, "how": how}
                        if how == "refill":
                            o["new"] = dict(bufs[b], seed=r.randrange(1 << 30), shape=r.choice(["law", "law", "sorted", "ties"]))
                        ops.append(o)
                        if r.random() < 0.7:
                            prev = [x for x in ops if x["k"] == "ev" and x["buf"] == b]
                            if prev:
                                n += 1
                                ops.append(dict(prev[-1], id=f"o{n}"))
                        continue
                k = r.randrange(len(objs))
                o = {"id": f"o{n}", "k": "ev", "obj": k, "buf": r.choice(own + shared),
                     "kw": exec_kwargs(r, cat[objs[k]["cls"]]) if r.random() < 0.2 else {}, "fresh": int(r.random() < 0.3)}
                if r.random() < 0.06:
                    o["dec"] = r.choice("pc")
                    o["kw"] = {}
                ops.append(o)
            clients[f"t{c}"] = ops
        spec = {"seed": f"C11:{seed}:{i}", "objs": objs, "bufs": bufs, "phases": [{"clients": clients}], "sched": self.sched(r)}
        spec["faults"] = {"mode": "explicit", "list": {}}
        if r.random() < 0.4:
            spec["line_faults"] = 1
            ids = [o["id"] for ops in clients.values() for o in ops if o["k"] == "ev"]
            spec["faults"] = {"mode": "random", "rates": {"line": 10 ** r.uniform(-3, -0.7)}, "budget": r.choice([1, 1, 2, 4]),
                              "ops": sorted(set(r.choices(ids, k=2))) if ids else []}
        return spec

    def battery(self, r, seed, name):
        """One statistic on every kind of sample, one after the other."""
        cls = catalogue()[name]
        fam = fam_of(cls)
        objs = []
        for _ in range(r.choice([1, 2, 3])):
            kw = null_kwargs(r, cls, fam, 0.4)
            kw.update(extra_kwargs(r, cls, fam) if r.random() < 0.5 else {})
            objs.append({"cls": name, "kw": kw})
        hi = HEAVY.get(name, 30)
        sizes = [r.randint(4, hi), r.randint(4, hi), r.randint(2, 5)] + ([r.randint(51, 70), r.choice([101, 128, 200])] if hi == 30 else [hi])
        bufs, ops = [], []
        for shape in ("law", "law", "sorted", "desc", r.choice(["ties", "wide"]), r.choice(["const", "nan", "neg", "ties"])):
            for form in ("list", "arr", r.choice(["tuple", "ro"]), r.choice(["strided", "int", "f32"])):
                for n in r.sample(sizes, 2 if form in ("list", "arr") else 1):
                    bufs.append({"fam": fam, "n": n, "seed": r.randrange(1 << 30), "form": form, "owner": 0, "shape": shape})
        r.shuffle(bufs)
        for k in range(len(bufs)):
            for o in {r.randrange(len(objs)), r.randrange(len(objs))}:
                ops.append({"id": f"o{len(ops)}", "k": "ev", "obj": o, "buf": k, "kw": {}, "fresh": 0})
        r.shuffle(ops)
        return {"seed": seed, "objs": objs, "bufs": bufs, "battery": 1, "phases": [{"clients": {"t0": ops}}], "sched": {"mode": "random", "concurrency": False},
                "faults": {"mode": "explicit", "list": {}}}

    def parade(self, r, seed, names):
        """Many different statistics one after the other, on ordinary and on degenerate samples."""
        cat = catalogue()
        objs, fams, bufs, ops = [], [], [], []
        mod = r.choice(names).split(".")[0]
        near = [n for n in names if n.split(".")[0] == mod]
        for n in r.sample(names, 8) + r.sample(near, min(len(near), 6)):
            fam = fam_of(cat[n])
            kw = null_kwargs(r, cat[n], fam, 0.6)
            kw.update(extra_kwargs(r, cat[n], fam) if r.random() < 0.3 else {})
            objs.append({"cls": n, "kw": kw})
            fams.append(fam)
        for fam in sorted(set(fams)):
            for shape in ("law", "law", r.choice(["const", "ties"]), r.choice(["neg", "nan", "ties", "wide"])):
                bufs.append({"fam": fam, "n": r.randint(4, min(HEAVY.get(o["cls"], 20) for o in objs)), "seed": r.randrange(1 << 30),
                             "form": r.choice(["list", "arr", "tuple", "f32"]), "owner": 0, "shape": shape})
        for k, fam in enumerate(fams):
            own = [j for j, b in enumerate(bufs) if b["fam"] == fam]
            for j in own + [r.randrange(len(bufs))]:
                ops.append({"id": f"o{len(ops)}", "k": "ev", "obj": k, "buf": j, "kw": {}, "fresh": int(r.random() < 0.5)})
        r.shuffle(ops)
        return {"seed": seed, "objs": objs, "bufs": bufs, "battery": 1, "phases": [{"clients": {"t0": ops}}], "sched": {"mode": "random", "concurrency": False},
                "faults": {"mode": "explicit", "list": {}}}

    def run_battery(self, spec):
        res = runner.run_forked(backwards, spec, 25)
        refs, steps = res[1] if res[0] == "ok" else ({}, 0)
        ops = spec["phases"][0]["clients"]["t0"]
        spec["phases"][0]["clients"]["t0"] = [o for o in ops if o["id"] in refs]
        spec["max_steps"] = 30 * steps + 100000
        w = EvalWorld(spec)
        w.sim.probes["battery-evaluations"] += len(refs)
        if len(refs) < len(ops):
            w.sim.probes["evaluation-too-long"] += len(ops) - len(refs)
        w.run()
        v, st, rec, sample = w.result(spec, self.judge(spec, w, refs, "in a fresh process and in another order"))
        st["nontrivial"] = True
        return v, st, rec, sample

    def execute(self, spec):
        spec = copy.deepcopy(spec)
        spec.pop("_changed", None)
        if spec.get("battery"):
            return self.run_battery(spec)
        # what each evaluation must give, from pristine processes
        refs, budget = {}, 0
        skip = set()
        cache = {}
        for ops in spec["phases"][0]["clients"].values():
            cont = {}
            for op in ops:
                b = spec["bufs"][op["buf"]]
                cur = cont.get(op["buf"])
                if cur is None:
                    cur = shaped(content(b), b["form"])
                if op["k"] == "mut":
                    mutate(cur, content(op["new"]) if op.get("new") else None, op["how"])
                    cont[op["buf"]] = cur
                    continue
                vals = [x.item() if hasattr(x, "item") else x for x in cur]
                arg = (spec["objs"][op["obj"]], vals, "rawint" if b["form"] == "int" else b["form"], op.get("kw", {}), op.get("dec"))
                key = json.dumps(arg)
                if key not in cache:
                    cache[key] = runner.run_forked(reference, arg, 8)
                res = cache[key]
                if res[0] != "ok" or res[1][2] is not None:
                    skip.add(op["id"])
                    continue
                refs[op["id"]] = res[1][0]
                budget += res[1][1]
        for c, ops in spec["phases"][0]["clients"].items():
            spec["phases"][0]["clients"][c] = [o for o in ops if o["id"] not in skip]
        spec["max_steps"] = 30 * budget + 100000
        w = EvalWorld(spec)
        if skip:
            w.sim.probes["evaluation-too-long"] += len(skip)
        w.run()
        w.sim.probes["reference-processes"] += len(cache)
        return w.result(spec, self.judge(spec, w, refs))

    def judge(self, spec, w, refs, where="alone, in a fresh process,"):
        sim = w.sim
        if sim.stop_reason:
            return ("stuck", f"evaluations did not end ({sim.stop_reason}) after {sim.steps} steps, thirty times what they take alone: " +
                    ", ".join(f"{h['id']} {spec['objs'][h['op']['obj']]['cls']}" for h in sim.history if h["ret"] is None and h["op"]["k"] == "ev"))
        for oid in spec.get("_changed", []):
            h = [x for x in sim.history if x["id"] == oid][0]
            return ("sample-modified", f"evaluating {spec['objs'][h['op']['obj']]['cls']} in {oid} modified the sample it was given "
                    f"({spec['bufs'][h['op']['buf']]['form']} of {spec['bufs'][h['op']['buf']]['n']})")
        for h in sim.history:
            op = h["op"]
            if op["k"] != "ev" or h["ret"] is None or w.fired_in(h["id"]):
                continue
            ref = refs.get(h["id"])
            if ref is None:
                continue
            got = h["out"]
            if got[0] != ref[0] or (got[0] == "ok" and not close(got[1], ref[1])) or (got[0] == "fail" and got[1] != ref[1]):
                return ("value", f"{h['id']} by {h['task']}: {spec['objs'][op['obj']]['cls']} {spec['objs'][op['obj']]['kw']} {op.get('kw') or ''} on "
                        f"{spec['bufs'][op['buf']]['form']} of {spec['bufs'][op['buf']]['n']} gave {got} but {where} it gives {ref}")
        return None
