"""C12, C13: Monte Carlo null distributions."""
import copy
import json
import math

import numpy as np
from scipy import stats as S

from sim import kernel, runner, seams
from . import calc, laws
from .calc import CalcProp, World, catalogue, fam_of

# milliseconds of one evaluation on 14 values, where it is more than 2
COST = {"uniform.BickelRosenblattUniformGofStatistic": 80, "log_normal.KLIntegralLogNormalGoFStatistic": 60,
        "log_normal.KLSupremumLogNormalGoFStatistic": 20, "exponent.RossbergExponentialityGofStatistic": 13,
        "beta.ModeBetaGofStatistic": 5, "exponent.AhsanullahExponentialityGofStatistic": 4}
NEVER = {"beta.ModeBetaGofStatistic"}      # rejects parameters for which it is not defined


def mc_nulls(fam):
    return calc.NULLS[fam]


_probes = {}


def probe(fam, kw, plan):
    """A user-defined statistic of a family: records what it is given, and fails when told to."""
    from pysatl_criterion.statistics import goodness_of_fit as g
    base = {"normal": "AbstractNormalityGofStatistic", "exponential": "AbstractExponentialityGofStatistic",
            "weibull": "AbstractWeibullGofStatistic", "uniform": "AbstractUniformGofStatistic",
            "student": "AbstractStudentGofStatistic", "gamma": "AbstractGammaGofStatistic",
            "beta": "AbstractBetaGofStatistic", "log_normal": "AbstractLogNormalGofStatistic"}[fam]
    mod = {"exponential": "exponent"}.get(fam, fam)
    if fam not in _probes:
        import importlib
        B = getattr(importlib.import_module("pysatl_criterion.statistics.goodness_of_fit." + mod), base)

        class P(B):
            plan = None

            @staticmethod
            def code():
                return "PROBE_" + fam

            @staticmethod
            def short_code():
                return "PROBE"

            def alternative(self):
                from pysatl_criterion.statistics.alternative import RightAlternative
                return RightAlternative()

            def execute_statistic(self, rvs, **kw):
                how, at = self.plan
                self.n = getattr(self, "n", 0) + 1
                if how != "none" and self.n == at:
                    if how == "raise":
                        raise ZeroDivisionError("probe statistic failed")
                    if how == "stop":
                        raise StopIteration("probe statistic stopped")
                    if how == "text":
                        return "not a number"
                    if how == "interrupt":
                        raise KeyboardInterrupt("probe")
                if how == "nan" and self.n == at:
                    return float("nan")
                s = 0.0
                for x in rvs:
                    s += float(x)
                return s / len(rvs) if len(rvs) else 0.0
        P.__abstractmethods__ = frozenset()
        _probes[fam] = P
    o = _probes[fam](**kw)
    o.plan = tuple(plan)
    return o


class MCWorld(World):
    def __init__(self, spec):
        super().__init__(spec)
        from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver as R
        self.R = R
        self.calls = {}          # op id -> evaluations made for it
        self.lists = {}          # op id -> returned list
        self.snaps = {}
        self.scribbled = set()
        self.results = [R(m) for m in spec["ms"]]
        self.bad = {}
        self.objs = []
        for i, o in enumerate(spec["objs"]):
            try:
                self.objs.append(self.make(o))
            except Exception as e:           # noqa: BLE001
                self.objs.append(None)
                self.bad[i] = f"{type(e).__name__}: {e}"

    def make(self, o):
        if "probe" in o:
            st = probe(o["fam"], o["kw"], o["probe"])
        else:
            st = calc.build(o)
        inner = st.execute_statistic
        world = self

        def execute_statistic(rvs, *a, **k):
            t = kernel.current_task()
            c = {"x": np.array(rvs, dtype=float, copy=True).ravel(), "shape": np.shape(rvs), "out": "raised", "f": len(world.sim.faults.record)}
            if t is not None:
                world.calls.setdefault(t.opid, []).append(c)
            v = inner(rvs, *a, **k)
            c["fault_inside"] = len(world.sim.faults.record) - c["f"]
            try:
                c["out"] = float(v)
            except Exception:                # noqa: BLE001
                c["out"] = "unusable"
            return v
        st.execute_statistic = execute_statistic
        return st

    def do(self, op):
        k = op["k"]
        if k == "seed":
            np.random.seed(op["s"])
            return None
        if k == "scr":
            got = self.lists.get(op["of"])
            if got is not None:
                got[:] = [-1e300] * len(got)
                self.scribbled.add(op["of"])
            return None
        if k == "gen":
            from pysatl_criterion.utils.generator import get_available_generator
            from pysatl_criterion import DistributionType
            g = get_available_generator(DistributionType(op["fam"]), op["kw"])
            return len(g.generate(op["n"]))
        if k == "bad":
            m = op.get("m")
            r = self.R(m) if m is not None else self.results[op["r"]]
            return self.kept(op, r.resolve(self.objs[op["obj"]], op["n"]))
        st = self.make(self.spec["objs"][op["obj"]]) if op.get("fresh") else self.objs[op["obj"]]
        r = self.R(op["m"]) if "m" in op else self.results[op["r"]]
        if k == "res":
            return self.kept(op, r.resolve(st, op["n"]))
        if k == "dec":
            from pysatl_criterion.hypothesis_testing.goodness_of_fit_test import goodness_of_fit_test as G
            fam = self.spec["objs"][op["obj"]]["fam"]
            obs = [float(v) for v in laws.law(fam, self.spec["objs"][op["obj"]]["null"]).sample(np.random.Generator(np.random.PCG64(op["xs"])), op["n"])]
            world = self

            class Rec(self.R):
                def resolve(self, statistic, sample_size):
                    out = super().resolve(statistic, sample_size)
                    world.kept(op, out)
                    return out
            m = (G.PValueDecisionMethod if op["how"] == "p" else G.CriticalValueDecisionMethod)(Rec(r.monte_carlo_count))
            t = G.GoodnessOfFitTest(st).test(obs, 0.1, m)
            return ["dec", bool(t.rejected)]
        raise kernel.HarnessError(k)

    def kept(self, op, out):
        self.lists[op["id"]] = out
        try:
            self.snaps[op["id"]] = [float(v) for v in out]
        except Exception:                    # noqa: BLE001
            self.snaps[op["id"]] = None
        return [type(out).__name__, len(out) if out is not None else None]


def pristine(arg):
    """The same operations alone in a pristine process: the values of the last one."""
    spec = arg
    w = MCWorld(spec)
    w.run()
    last = w.sim.history[-1]
    return last["out"], w.snaps.get(last["id"])


def key(v):
    return "nan" if v != v else v


class MCProp(CalcProp):
    """Judgements shared by C12 and C13."""

    def complete(self, spec, w):
        """Every resolution that returned is complete, fresh and its own."""
        sim = w.sim
        if sim.stop_reason:
            return ("stuck", f"resolutions did not end: {sim.stop_reason} after {sim.steps} steps")
        seeded = any(h["op"]["k"] == "seed" for h in sim.history)
        back = calc.reseeded(sim.history)
        seen = {}
        for h in sim.history:
            op = h["op"]
            if h["ret"] is None:
                continue
            if op["k"] == "bad":
                if h["out"][0] == "ok" and not w.fired_in(h["id"]):
                    return ("bad-argument", f"{h['id']}: resolving with count {op.get('m', spec['ms'][op['r']])} and sample size {op['n']} gave {h['out']}")
                continue
            if op["k"] not in ("res", "dec"):
                continue
            ob = spec["objs"][op["obj"]]
            name = ob.get("cls") or "probe " + str(ob["probe"])
            calls = w.calls.get(h["id"], [])
            M = op.get("m") or spec["ms"][op["r"]]
            what = f"{h['id']} by {h['task']}: {op['k']} of {name} {ob['kw']} with {M} samples of {op['n']}"
            failed_eval = [c for c in calls if c["out"] in ("raised", "unusable")]
            fired = w.fired_in(h["id"])
            if h["out"][0] == "fail":
                if op["k"] == "dec" and any(not math.isfinite(c["out"]) for c in calls if isinstance(c["out"], float)):
                    continue                 # no decision on a distribution that is not finite
                if not fired and not failed_eval:
                    if ob.get("cls") in NEVER:
                        continue
                    return ("fail", f"{what} failed with {h['out'][1:]} although nothing went wrong")
                continue
            vals = w.snaps.get(h["id"])
            if vals is None or (op["k"] == "res" and h["out"][1][1] != len(vals)):
                return ("shape", f"{what} returned {h['out'][1]}, not numbers")
            if len(vals) != M:
                return ("count", f"{what} returned {len(vals)} values")
            if failed_eval:
                return ("swallowed", f"{what} returned a result although evaluation {calls.index(failed_eval[0]) + 1} of {len(calls)} {failed_eval[0]['out']}")
            inside = sum(c.get("fault_inside", 0) for c in calls)
            if len(fired) > inside:
                return ("swallowed", f"{what} returned a result although it was interrupted: {[(k, sim.faults.record[k]['kind']) for k in fired]}")
            pool = {}
            for c in calls:
                pool[key(c["out"])] = pool.get(key(c["out"]), 0) + 1
            for v in vals:
                if pool.get(key(v), 0) <= 0:
                    return ("foreign", f"{what} returned {v!r}, which is not the value of any of its {len(calls)} evaluations (or is used twice)")
                pool[key(v)] -= 1
            for c in calls:
                if c["shape"] != (op["n"],):
                    return ("size", f"{what} evaluated a sample of shape {c['shape']}")
            # fresh samples: continuous laws never repeat a value
            if op["k"] == "res" and not back(h):
                mine = seen if not seeded else {}
                for i, c in enumerate(calls):
                    rep = 0
                    for v in c["x"]:
                        o = mine.get(v)
                        if o is not None and v != 0 and abs(v) < 1e300:
                            rep += 1
                            where = o
                        mine[v] = (h["id"], i)
                    if rep >= 2:
                        return ("repeated", f"{what}: sample {i + 1} shares {rep} values with sample {where[1] + 1} of {where[0]}")
        for oid, snap in w.snaps.items():
            if snap is None or oid in w.scribbled:
                continue
            now = w.lists[oid]
            if [key(float(v)) for v in now] != [key(v) for v in snap]:
                return ("changed-later", f"the list returned by {oid} changed after it was returned")
        return None

    def law(self, spec, w):
        """The samples follow the stated null hypothesis."""
        pools = {}
        back = calc.reseeded(w.sim.history)
        seeds = [h["op"]["s"] for h in w.sim.history if h["op"]["k"] == "seed"]
        for h in w.sim.history:
            op = h["op"]
            if op["k"] == "res":
                ob = spec["objs"][op["obj"]]
                for c in w.calls.get(h["id"], []):
                    d = laws.outside(c["x"], laws.law(ob["fam"], ob["null"]))
                    if d:
                        return ("law", f"{h['id']}: a sample drawn for {ob.get('cls') or 'probe'} {ob['kw']} cannot come from {ob['fam']} {ob['null']}: {d}")
            if op["k"] == "res" and h["out"][0] == "ok" and not back(h):
                ob = spec["objs"][op["obj"]]
                xs = [c["x"] for c in w.calls.get(h["id"], [])]
                pools.setdefault(json.dumps([ob["fam"], ob["null"]], sort_keys=True), []).append((h["id"], xs, ob, op["n"]))
        for k, items in pools.items():
            fam, null = json.loads(k)
            lw = laws.law(fam, null)
            for group in [[i] for i in items] + ([items] if len(items) > 1 and len(set(seeds)) == len(seeds) else []):
                xs = [x for i in group for x in i[1]]
                if not xs:
                    continue
                allx = np.concatenate(xs)
                d = laws.off_law(allx, lw) or laws.dependent(xs, lw)
                if d:
                    ob = group[0][2]
                    return ("law", f"{'+'.join(i[0] for i in group)}: samples drawn for {ob.get('cls') or 'probe'} {ob['kw']} do not follow {fam} {null}: {d}")
        return None


class C12(MCProp):
    id = "C12"
    rule = ("a run resolves null distributions with 1-2 resolvers for 1-3 statistics (user-defined ones that record their samples and fail when told to, "
            "and shipped ones) in 1-3 threads, with threads pre-empted at lines and draws, evaluations and draws failing or interrupted at any replication, "
            "returned lists overwritten by their owner, and the global generator re-seeded; counts, values, sample sizes, freshness, law of the samples and "
            "reproducibility against a pristine process are judged; non-trivial = at least one thread switch or fault")
    quick = {"wall": 50, "runs": 200000, "timeout": 60, "min_wall": 60}

    def gen(self, seed, i):
        r = self.rng(seed, i)
        cat = catalogue()
        names = [n for n in cat if n not in COST]
        objs = []
        big = r.random() < 0.08              # many replications of cheap statistics
        fams = r.sample(list(calc.NULLS), 2)
        for _ in range(r.choice([1, 2, 2, 3])):
            fam = r.choice(fams)
            if r.random() < 0.65:
                kw = calc.null_params(r, fam) if r.random() < 0.8 else {}
                how = r.choice(["none", "none", "none", "none", "raise", "raise", "stop", "text", "interrupt"])
                o = {"probe": [how, r.choice([1, 2, 3, r.randint(1, 40)] + ([r.randint(60, 600)] * 2 if big else []))], "fam": fam, "kw": dict(kw)}
            else:
                n = r.choice([x for x in names if fam_of(cat[x]) == fam])
                o = {"cls": n, "fam": fam, "kw": calc.null_kwargs(r, cat[n], fam, 0.25)}
            objs.append(o)
        if r.random() < 0.4:
            objs.append(copy.deepcopy(r.choice(objs)))
        ms = [r.choice([1, 2, 5, 10, 20, 40]) for _ in range(2)]
        ncl = r.choice([1, 1, 2, 2, 3])
        clients, n = {}, 0
        for c in range(ncl):
            ops = []
            for _ in range(r.choice([1, 2, 2] if big else [1, 2, 3, 5])):
                n += 1
                k = r.randrange(len(objs))
                p = r.random()
                if p < 0.06:
                    o = {"k": "bad", "r": 0, "obj": k, "n": r.choice([0, -1, -5])}
                    if r.random() < 0.5:
                        o.update(n=5, m=r.choice([0, -1, -10]))
                elif p < 0.12 and ops:
                    o = {"k": "scr", "of": r.choice(ops)["id"]}
                elif p < 0.24:
                    o = {"k": "seed", "s": r.randrange(1000)}
                elif p < 0.32:
                    f = r.choice(list(calc.NULLS))
                    o = {"k": "gen", "fam": f, "kw": calc.null_params(r, f), "n": r.choice([1, 5, 20])}
                else:
                    o = {"k": "dec" if p > 0.93 else "res", "r": r.randrange(2), "obj": k,
                         "n": r.choice([1, 2, 3, 5, 10, 20, 40]) if "probe" in objs[k] else r.randint(8, 16), "fresh": int(r.random() < 0.3)}
                    if o["k"] == "dec":
                        o["how"], o["xs"], o["n"] = r.choice("pc"), r.randrange(1 << 30), r.randint(8, 16)
                    elif "probe" in objs[k] and r.random() < 0.12:
                        o["n"] = r.choice([51, 64, 100, 150])
                    if big and o["k"] == "res" and "probe" in objs[k]:
                        o["m"], o["n"] = r.choice([101, 128, 150, 257, 300, 513, 1001]), r.choice([1, 2, 3, 8])
                    elif r.random() < 0.2:
                        o["m"] = r.choice([1, 3, 30, 100]) if "probe" in objs[k] else r.choice([1, 3, 10])
                o["id"] = f"o{n}"
                ops.append(o)
                if o["k"] == "seed" and r.random() < 0.7:
                    again = [x for x in ops if x["k"] == "res"]
                    n += 1
                    if again and r.random() < 0.5:
                        ops.append(dict(again[-1], id=f"o{n}"))
                    else:
                        ops.append({"k": "res", "r": 0, "obj": k, "n": r.randint(8, 16), "fresh": 0, "id": f"o{n}"})
            clients[f"t{c}"] = ops
        for o in objs:
            o["null"] = calc.full_null(cat[o["cls"]], o["kw"]) if "cls" in o else dict(defaults(o["fam"]), **o["kw"])
        spec = {"seed": f"C12:{seed}:{i}", "objs": objs, "ms": ms, "phases": [{"clients": clients}], "sched": self.sched(r), "max_steps": 3000000}
        spec["faults"] = {"mode": "explicit", "list": {}}
        if r.random() < 0.5:
            spec["line_faults"] = 1
            spec["faults"] = {"mode": "random", "budget": r.choice([1, 1, 2, 4]),
                              "rates": {"line": 10 ** r.uniform(-3.5, -1) if r.random() < 0.7 else 0,
                                        "rng": 10 ** r.uniform(-2, -0.3) if r.random() < 0.7 else 0}}
        return spec

    def execute(self, spec):
        w = MCWorld(spec)
        for i, why in w.bad.items():
            w.sim.probes["unbuildable"] += 1
        for c, ops in spec["phases"][0]["clients"].items():
            spec["phases"][0]["clients"][c] = [o for o in ops if o.get("obj") not in w.bad]
        w.run()
        seams.lines_off()
        v = self.complete(spec, w) or self.law(spec, w) or self.seeds(spec, w)
        return w.result(spec, v)

    def seeds(self, spec, w):
        """The same seed gives the same result as in a pristine process."""
        if len(spec["phases"][0]["clients"]) != 1:
            return None
        hist = w.sim.history
        done = 0
        for a, b in zip(hist, hist[1:]):
            if a["op"]["k"] != "seed" or b["op"]["k"] != "res" or a["out"][0] != "ok" or b["out"][0] != "ok" or w.fired_in(b["id"]) or done >= 2:
                continue
            if spec["objs"][b["op"]["obj"]].get("probe", ["none"])[0] != "none":
                continue
            done += 1
            s = {"seed": "ref", "objs": spec["objs"], "ms": spec["ms"], "phases": [{"clients": {"a": [a["op"], dict(b["op"], fresh=0)]}}],
                 "sched": {"mode": "explicit"}, "faults": {"mode": "explicit", "list": {}}, "max_steps": 3000000}
            seams.lines_on()
            res = runner.run_forked(pristine, s, 30)
            seams.lines_off()
            w.sim.probes["seed-reference"] += 1
            if res[0] != "ok" or res[1][0][0] != "ok":
                continue
            x, y = w.snaps.get(b["id"]), res[1][1]
            if x is not None and not calc.close(["num", x], ["num", y]):
                return ("seed", f"{b['id']} after seeding with {a['op']['s']} gave {x[:3]}... but in a fresh process the same seed gives {y[:3]}...")
        return None


def defaults(fam):
    """Default hypothesis parameters of a family's statistics, from the probe's constructor."""
    import inspect
    names = set().union(*calc.NULLS[fam])
    ps = inspect.signature(probe(fam, {}, ["none", 0]).__class__.__init__).parameters
    return {k: p.default for k, p in ps.items() if k in names and p.default is not inspect._empty}


class C13(MCProp):
    id = "C13"
    rule = ("each run takes one shipped statistic (all in turn) with default or other hypothesis parameters, simulates its null distribution in one or two "
            "threads next to other statistics, parameters and generators, and compares the generated samples with the law that the constructor stated, the null "
            "values with those of independently drawn samples of that law, and for continuous statistics the number of rejections of a true hypothesis with its "
            "exact bounds; every statistical comparison has an error probability below 1e-10; non-trivial = a thread switch or a distinct statistic and parameters")
    assumptions = calc.ASSUME + ["reference laws come from scipy.stats quantile functions applied to independent uniforms",
                                 "sampling comparisons find deviations larger than about 0.07 in the distribution function of the samples"]
    quick = {"wall": 60, "runs": 200000, "timeout": 120, "min_wall": 60}

    def gen(self, seed, i):
        r = self.rng(seed, i)
        cat = catalogue()
        names = list(cat)
        n0 = names[(i * 11 + seed * 17) % len(names)]
        fam = fam_of(cat[n0])
        same = [n for n in names if fam_of(cat[n]) == fam and n not in COST]
        cost = COST.get(n0, 1)
        objs = [{"cls": n0, "fam": fam, "kw": calc.null_kwargs(r, cat[n0], fam, 0.25)}]
        M = 150 if cost < 3 else max(6, int(300 / cost))
        n = r.randint(8, calc.HEAVY.get(n0, 20))
        ops = {"t0": [{"id": "o1", "k": "res", "m": M, "r": 0, "obj": 0, "n": n, "fresh": 0}]}
        if r.random() < 0.6:
            n1 = r.choice(same) if r.random() < 0.7 or n0 in COST else n0
            objs.append({"cls": n1, "fam": fam, "kw": calc.null_kwargs(r, cat[n1], fam, 0.1)})
            ops["t1"] = [{"id": "o2", "k": "res", "m": 40, "r": 0, "obj": 1, "n": r.randint(8, calc.HEAVY.get(n1, 16)), "fresh": 0}]
        if r.random() < 0.5:
            pre = []
            for j in range(r.choice([1, 2, 3])):
                f = fam if r.random() < 0.7 else r.choice(list(calc.NULLS))
                pre.append({"id": f"g{j}", "k": "gen", "fam": f, "kw": calc.null_params(r, f), "n": r.choice([1, 5, 20])})
            if r.random() < 0.5:
                ops["t0"] = pre + ops["t0"]
            else:
                ops["t2"] = pre
        for o in objs:
            o["null"] = calc.full_null(cat[o["cls"]], o["kw"])
        return {"seed": f"C13:{seed}:{i}", "objs": objs, "ms": [5], "phases": [{"clients": ops}], "sched": self.sched(r),
                "faults": {"mode": "explicit", "list": {}}, "max_steps": 20000000, "tests": 60 if cost < 3 else 0,
                "alpha": r.choice([0.05, 0.1, 0.2, 0.4])}

    def execute(self, spec):
        w = MCWorld(spec)
        v = None
        for i, why in w.bad.items():
            if spec["objs"][i]["cls"] not in NEVER:
                v = ("construct", f"{spec['objs'][i]['cls']} {spec['objs'][i]['kw']} cannot be built: {why}")
            w.sim.probes["unbuildable"] += 1
        for c, ops in spec["phases"][0]["clients"].items():
            spec["phases"][0]["clients"][c] = [o for o in ops if o.get("obj") not in w.bad]
        w.run()
        seams.lines_off()
        w.sim.probes["statistic " + spec["objs"][0]["cls"].split(".")[0]] += 1
        v = v or self.complete(spec, w) or self.law(spec, w) or self.nulls(spec, w)
        v, st, rec, sample = w.result(spec, v)
        st["nontrivial"] = True
        return v, st, rec, sample

    def nulls(self, spec, w):
        h = [x for x in w.sim.history if x["id"] == "o1"]
        if not h or h[0]["out"][0] != "ok":
            return None
        op, ob = h[0]["op"], spec["objs"][0]
        V = np.array(w.snaps["o1"], dtype=float)
        g = np.random.Generator(np.random.PCG64(int.from_bytes(spec["seed"].encode(), "little") % (1 << 63)))
        lw = laws.law(ob["fam"], ob["null"])
        st = calc.build(ob)
        T = max(spec["tests"], len(V))
        xs = [lw.sample(g, op["n"]) for _ in range(T)]
        import sys
        out, sys.stdout = sys.stdout, calc.Null()
        try:
            with np.errstate(all="ignore"):
                W = []
                for x in xs:
                    try:
                        W.append(float(st.execute_statistic(x)))
                    except (ValueError, ZeroDivisionError, FloatingPointError, IndexError):
                        W.append(math.nan)
                W = np.array(W)
                V2, W2 = np.where(np.isnan(V), np.inf, V), np.where(np.isnan(W), np.inf, W)
                d, far = laws.two_sample(V2, W2)
                w.sim.probes["null-laws-compared"] += 1
                if far:
                    return ("null-law", f"{ob['cls']} {ob['kw']}, samples of {op['n']}: the null distribution ({len(V)} values, median {np.median(V):.4g}) differs by {d:.2f} "
                            f"from the statistic on {len(W)} samples of {ob['fam']} {ob['null']} (median {np.median(W):.4g})")
                if len(V) < 100 or not np.isfinite(V).all() or not np.isfinite(W).all() or len(set(V)) < len(V) or len(set(W)) < len(W):
                    w.sim.probes["not-continuous"] += 1
                    return None
                return self.level(spec, w, ob, st, V, xs[:spec["tests"]])
        finally:
            sys.stdout = out

    def level(self, spec, w, ob, st, V, xs):
        from pysatl_criterion.hypothesis_testing.goodness_of_fit_test import goodness_of_fit_test as G
        a, M, T = spec["alpha"], len(V), len(xs)

        class R(G.AbstractLimitDistributionResolver):
            def resolve(self, statistic, sample_size):
                return [float(v) for v in V]
        for how in ("p", "c"):
            m = (G.PValueDecisionMethod if how == "p" else G.CriticalValueDecisionMethod)(R())
            k = sum(bool(G.GoodnessOfFitTest(st).test(list(x), a, m).rejected) for x in xs)
            lo, hi = max(0, math.floor(a * M) - 3), min(M, math.ceil(a * M) + 3)
            # rank of a new value among M others: beta-binomial, exactly
            p_hi = S.betabinom.sf(k - 1, T, hi + 1, M - hi + 1 if hi < M else 1)
            p_lo = S.betabinom.cdf(k, T, max(lo, 1), M + 1 - max(lo, 1)) if lo > 0 else 1
            w.sim.probes["level-tests"] += T
            if p_hi < 1e-11 or p_lo < 1e-11:
                return ("level", f"{ob['cls']} {ob['kw']}: {k} of {T} true hypotheses rejected at level {a} ({'p-value' if how == 'p' else 'critical value'}, null "
                        f"distribution of {M} values)")
        return None


