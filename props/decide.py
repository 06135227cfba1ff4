"""C14: tests that take their null distribution from the store."""
import json
import math

import numpy as np

from sim import kernel
from . import calc, laws, lin, world
from .store import ASSUME, REAL, STUBS, CODES, Gen, StoreProp, clients, final_phase

ALTS = ["LEFT", "RIGHT", "TWO_TAILED"]
# shipped statistics used as they are: cheap ones of every family
SHIPPED = ["normal.KolmogorovSmirnovNormalityGofStatistic", "normal.AndersonDarlingNormalityGofStatistic", "normal.ShapiroWilkNormalityGofStatistic",
           "exponent.KolmogorovSmirnovExponentialityGofStatistic", "exponent.LillieforsExponentialityGofStatistic", "exponent.MoranExponentialityGofStatistic",
           "weibull.KolmogorovSmirnovWeibullGofStatistic", "weibull.CrammerVonMisesWeibullGofStatistic", "uniform.KolmogorovSmirnovUniformGofStatistic",
           "uniform.CrammerVonMisesUniformGofStatistic", "student.KolmogorovSmirnovStudentGofStatistic", "gamma.KolmogorovSmirnovGammaGofStatistic",
           "beta.KolmogorovSmirnovBetaGofStatistic", "log_normal.KolmogorovSmirnovLogNormalGofStatistic"]


def fixed(o):
    """A user's statistic with a given code, parameters, alternative and value."""
    from pysatl_criterion import DistributionType
    from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic as A
    from pysatl_criterion.statistics import alternative as alt
    from pysatl_criterion.statistics.hypothesis import GoodnessOfFitHypothesis

    class Fixed(A):
        @staticmethod
        def code():
            return o["code"]

        @staticmethod
        def short_code():
            return "F"

        @staticmethod
        def distribution():
            return DistributionType.NORMAL

        def hypothesis(self):
            return GoodnessOfFitHypothesis({f"p{i}": v for i, v in enumerate(o["params"])} if o["params"] is not None else None)

        def alternative(self):
            return alt.Alternative.get_alternative(getattr(alt.AlternativeType, o["alt"]))

        def execute_statistic(self, rvs, **kw):
            return float(rvs[0])
    return Fixed()


class DecidePhase(world.Phase):
    def __init__(self, *a):
        super().__init__(*a)
        self.objs = {}
        self.methods = {}

    def stat(self, k, fresh):
        if fresh or k not in self.objs:
            o = self.spec["stats"][k]
            st = calc.build(o) if "cls" in o else fixed(o)
            if fresh:
                return st
            self.objs.setdefault(k, st)
        return self.objs[k]

    def do(self, P, store, op):
        if op["k"] == "load":
            return self.load(P, store, op)
        if op["k"] != "dec":
            return super().do(P, store, op)
        st = self.stat(op["s"], op.get("fresh"))
        key = (id(P), op["how"])
        if op.get("newm") or key not in self.methods:
            cls = P.gof.PValueDecisionMethod if op["how"] == "p" else P.gof.CriticalValueDecisionMethod
            m = cls(P.resolver.StorageLimitDistributionResolver(store))
            if not op.get("newm"):
                m = self.methods.setdefault(key, m)
        else:
            m = self.methods[key]
        x = observed(op, self.spec["stats"][op["s"]])
        try:
            with np.errstate(all="ignore"):
                r = P.gof.GoodnessOfFitTest(st).test(x, op["alpha"], m)
        except Exception as e:               # noqa: BLE001
            if isinstance(e, (MemoryError, kernel.HarnessError, OSError)) or type(e).__module__.split(".")[0] in ("sqlalchemy", "sqlite3", "zstandard"):
                raise
            return ("ok", ["raised", type(e).__name__, str(e)[:100]])
        cv = r.critical_value
        return ("ok", ["decided", float(r.statistic), None if r.p_value is None else float(r.p_value),
                       None if cv is None else [float(v) for v in (cv if isinstance(cv, (tuple, list)) else [cv])], bool(r.rejected), float(r.significance_level)])

    def load(self, P, store, op):
        """Synchronise from a remote that answers at once and never fails."""
        recs = op["remote"]
        got = op.setdefault("_got", [])
        M = P.model
        phase = self

        class Remote(M.ILimitDistributionStorage):
            def _best(self, codes, n, err):
                out = []
                for c in codes:
                    hit = [x for x in recs if x["c"] == c and abs(x["n"] - n) <= err]
                    if hit:
                        x = max(hit, key=lambda x: x["m"])
                        got.append(x["v"])
                        out.append(phase.mk(M, x))
                return out

            def get_data_for_cv(self, q):
                kernel.CURRENT.point("io", 1e-3, "net")
                r = self._best([q.criterion_code], q.sample_size, q.sample_size_error)
                kernel.CURRENT.point("io", 1e-3, "net")
                return r[0] if r else None

            def get_bulk_data(self, codes, n, err=0):
                kernel.CURRENT.point("io", 1e-3, "net")
                r = self._best(list(codes), n, err)
                kernel.CURRENT.point("io", 1e-3, "net")
                return r

            def init(self):
                pass

            def get_data(self, q):
                return None
            insert_data = insert_bulk_data = delete_data = get_data
        Remote.__abstractmethods__ = frozenset()
        ld = P.loader.CriticalValueLoader(store, Remote())
        if op["bulk"]:
            ld.load_bulk(list(op["codes"]), op["n"], op["err"])
        else:
            ld.load(op["codes"][0], op["n"], op["err"])
        return ("ok",)


def observed(op, o):
    """The observed sample of a decision: for a user's statistic its value is the first element."""
    if "cls" not in o:
        return [op["v"]] + [0.0] * (op["n"] - 1)
    g = np.random.Generator(np.random.PCG64(op["xs"]))
    return [float(v) for v in laws.law(o["fam"], o["null"]).sample(g, op["n"])]


# ---------------------------------------------------------------- reference decisions
def explains(L, v, alpha, alt, how, r):
    """Can the decision r be one on the stored list L? Ties may count either way."""
    _, stat, p, cv, rejected, level = r
    a = np.sort(np.asarray(L, dtype=np.float32).astype(float))
    n = len(a)
    if stat != v and abs(stat - v) > 1e-9 * abs(v) or level != alpha:
        return False
    tol = abs(v) * 2e-7 + 1e-12
    below, upto = int((a < v - tol).sum()), int((a <= v + tol).sum())          # #{L < v}, #{L <= v}
    if how == "p":
        if p is None or cv is not None:
            return False
        lo, hi = below / n, upto / n
        if alt == "LEFT":
            ok = lo - 1e-9 <= p <= hi + 1e-9
        elif alt == "RIGHT":
            ok = 1 - hi - 1e-9 <= p <= 1 - lo + 1e-9
        else:
            two = [2 * min(x, 1 - x) for x in (lo, hi)] + ([1.0] if lo <= 0.5 <= hi else [])
            ok = min(two) - 1e-9 <= p <= max(two) + 1e-9
            if lo < hi:
                ok = ok or abs(p - min(1.0, 2 * min(hi, 1 - lo))) < 1e-9       # ties counted in both tails
        return ok and (rejected == (p <= alpha) or abs(p - alpha) < 1e-9)
    if cv is None or p is not None:
        return False
    qs = {"LEFT": [alpha], "RIGHT": [1 - alpha], "TWO_TAILED": [alpha / 2, 1 - alpha / 2]}[alt]
    if len(cv) != len(qs):
        return False
    tie = False
    out = False
    for c, q in zip(cv, qs):
        i, j = max(0, math.floor(q * n - 1e-9) - 1), min(n - 1, math.ceil(q * n + 1e-9))
        t = 2e-7 * max(abs(a[i]), abs(a[j])) + 1e-12
        if not a[i] - t <= c <= a[j] + t:
            return False
        left = alt == "LEFT" or (alt == "TWO_TAILED" and q == qs[0])
        if abs(v - c) <= tol + t:
            tie = True
            # counting the tie as rejected must not exceed the stated share
            share = (a <= c + t).sum() if left else (a >= c - t).sum()
            if rejected and share > n * (alpha if alt != "TWO_TAILED" else alpha / 2) + 1 + 1e-9 and not (v < c if left else v > c):
                return False
        elif (v < c) if left else (v > c):
            out = True
    return out == rejected or tie


def label(o):
    return json.dumps([o.get("cls") or o["code"], o.get("null") if "cls" in o else o["params"] or []], sort_keys=True)


def lin_dec(spec, op, out):
    """The values that would explain this decision."""
    o = spec["stats"][op["s"]]
    r = out[1]
    res = {"c": o["code"], "p": json.dumps(o["params"] if o["params"] is not None else []), "n": op["n"]}
    if r[0] == "raised":
        res["tok"] = None
        return res
    v = op["v"] if "cls" not in o else None
    if v is None:
        v = r[1]                              # the value itself is the business of C11
    res["tok"] = sorted({world._tok(x) for x in world.all_records(spec) if x.get("lab") == label(o) and x["n"] == op["n"] and
                         explains(world.values(x["v"], x["size"], x["flavour"]), v, op["alpha"], o["alt"], op["how"], r)})
    return res


class C14(StoreProp):
    id = "C14"
    real = REAL + ["statistics, decision methods, p-value and critical-value calculators, StorageLimitDistributionResolver, CriticalValueLoader unmodified"]
    stubs = STUBS + ["remote store of the loader (answers from a list, at once)"]
    assumptions = ASSUME + ["ties between the statistic and null values may be counted either way", "numbers agree up to single precision"]
    rule = ("a run stores, updates, deletes and synchronises null distributions under look-alike keys (same criterion with other parameters, permuted parameters, neighbouring sizes, other criteria) from 1-3 threads in 1-2 processes "
            "over 1-3 lives with kills and power losses, while tests with shipped and user-defined statistics decide by p-value and critical value on the same store; every decision must be the one on a list that the store held under "
            "that criterion, parameters and size at that moment, and must be an error exactly when it held none; non-trivial = a restart, a switch or a fault")
    quick = {"wall": 50, "runs": 200000, "timeout": 60, "min_wall": 60}

    def gen(self, seed, i):
        r = self.rng(seed, i)
        cat = calc.catalogue()
        stats = []
        if r.random() < 0.5:
            codes = r.sample(CODES, r.choice([1, 2]))
            for _ in range(r.choice([1, 2, 3])):
                stats.append({"code": r.choice(codes), "params": r.choice([[], [0.0], [1.0], [1.5, 2.0], [2.0, 1.5], [0.1 + 0.2], [0.3], None]), "alt": r.choice(ALTS)})
        else:
            names = [n for n in SHIPPED if n in cat]
            for n in r.sample(names, r.choice([1, 1, 2])):
                fam = calc.fam_of(cat[n])
                for kw in r.sample(calc.NULLS[fam], r.choice([1, 2, 2])):
                    import inspect
                    ps = inspect.signature(cat[n].__init__).parameters
                    kw = {k: v for k, v in kw.items() if k in ps}
                    st = calc.build({"cls": n, "kw": kw})
                    o = {"cls": n, "fam": fam, "kw": kw, "null": calc.full_null(cat[n], kw), "code": st.code(), "params": list(st.hypothesis().parameters()),
                         "alt": st.alternative().type().name}
                    if fam == "student":
                        o["null"] = dict({"df": 1, "loc": 0, "scale": 1}, **o["null"])
                    stats.append(o)
        g = Gen(r, ncodes=1, nparams=1, nsizes=1, nmc=1, size_hi=5)
        base = r.choice([8, 12])
        sizes = r.sample([base - 1, base, base + 1], r.choice([1, 2]))
        mcs = r.sample([10, 100, 1000], r.choice([1, 2]))
        shape = r.choice(["plain", "plain", "flat", "grid"])

        def key():
            o = r.choice(stats)
            return {"c": o["code"], "p": list(o["params"] or []), "n": r.choice(sizes), "m": r.choice(mcs), "lab": label(o)}

        def record():
            g.v += 1
            return dict(key(), e=r.choice([1, 1, 2]), v=g.v, size=r.choice([1, 2, 5, 12, 20, 40]), flavour=shape if r.random() < 0.8 else "plain")

        def op():
            g.n += 1
            o = {"id": f"o{g.n}"}
            k = r.choices(["dec", "ins", "bulk", "del", "load", "get"], [10, 4, 1, 1, 1.5, 0.5])[0]
            o["k"] = k
            if k == "ins":
                o["rec"] = record()
            elif k == "bulk":
                o["recs"] = [record() for _ in range(r.choice([1, 2, 3]))]
            elif k in ("del", "get"):
                x = key()
                o.update(c=x["c"], p=x["p"], n=x["n"], m=x["m"])
            elif k == "load":
                o["remote"] = [record() for _ in range(r.choice([0, 1, 2, 3]))]
                o.update(codes=sorted({s["code"] for s in stats}), bulk=int(r.random() < 0.5), n=r.choice(sizes), err=r.choice([0, 0, 1]))
            else:
                s = r.randrange(len(stats))
                o.update(s=s, how=r.choice("pc"), alpha=r.choice([0.01, 0.05, 0.1, 0.25, 0.5]), n=r.choice(sizes), fresh=int(r.random() < 0.3), newm=int(r.random() < 0.3),
                         xs=r.randrange(1 << 30))
                o["v"] = r.choice([round(r.uniform(-6, 6), 3), r.randrange(-24, 24) / 8, float(r.randint(1, max(1, g.v))) + 0.25])
            return o
        spec = {"seed": f"C14:{seed}:{i}", "journal": self.journal(r), "phases": [], "stats": stats, "kind": "decide"}
        if r.random() < 0.6:
            spec["pre"] = [record() for _ in range(r.randint(1, 4))]
        flavour = r.choice(["none", "none", "none", "crash", "disk", "line"])
        for p in range(r.choice([1, 1, 2, 3])):
            nc = r.choice([1, 1, 2, 3])
            ph = {"clients": {f"c{p}{j}": [op() for _ in range(r.randint(2, 10 if nc == 1 else 5))] for j in range(nc)}, "end": r.choice(["kill", "kill", "power"]),
                  "crash": r.choice(["power", "kill", "proc"])}
            ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 1, 2]))
            rate = 10 ** r.uniform(-2.7, -1.3)
            ph["faults"] = {"mode": "random", "budget": r.choice([1, 2]),
                            "rates": {"none": {}, "crash": {"crash": rate, "crash_after": rate}, "disk": {"read": rate, "write": rate, "lock": rate},
                                      "line": {"line": rate}}[flavour]}
            spec["phases"].append(ph)
        spec["line_faults"] = flavour == "line"
        spec["sched"] = {"mode": "random"}
        z = final_phase(spec)["phases"][-1]
        k = 0
        for s in range(len(stats)):
            for n in sizes:
                k += 1
                z["clients"]["z"].append({"id": f"zd{k}", "k": "dec", "s": s, "how": "pc"[k % 2], "alpha": 0.1, "n": n, "fresh": 1, "newm": 1, "xs": k, "v": 0.3, "quiet": 1})
        return spec

    def nontrivial(self, st):
        return st["switches"] > 0 or sum(st["fired"].values()) > 0 or st["ops"].get("dec.ok", 0) > 2
