"""C15: random generators."""
import importlib
import json

import numpy as np

from sim import kernel, runner, seams
from . import calc, laws
from .calc import CalcProp, World


def gclass(kind):
    from pysatl_criterion.generator import generators as g
    for c in vars(g).values():
        if isinstance(c, type) and c.__module__ == g.__name__ and c.distribution_type().value == kind:
            return c
    raise KeyError(kind)


class GenWorld(World):
    def __init__(self, spec):
        super().__init__(spec)
        import pysatl_criterion.generator.generators  # noqa: F401
        self.objs = [None] * len(spec["objs"])
        for i, o in enumerate(spec["objs"]):
            if not o.get("late"):
                self.objs[i] = self.make(o)
        self.out_, self.keep, self.scribbled = {}, {}, set()

    def make(self, o):
        if o["how"] == "fn":
            m, f = laws.FNS[o["kind"]].split(".")
            fn = getattr(importlib.import_module("pysatl_criterion.core.distributions." + m), f)
            return lambda n: fn(size=n, **o["kw"])
        if o["how"] == "reg":
            from pysatl_criterion import DistributionType
            from pysatl_criterion.utils.generator import get_available_generator
            return get_available_generator(DistributionType(o["kind"]), dict(o["kw"]))
        if o["how"] == "pos":
            return gclass(o["kind"])(*o["kw"].values())
        return gclass(o["kind"])(**o["kw"])

    def obj(self, op):
        k = op["obj"]
        if op.get("fresh"):
            return self.make(self.spec["objs"][k])
        if self.objs[k] is None:
            self.objs[k] = self.make(self.spec["objs"][k])
        return self.objs[k]

    def do(self, op):
        k = op["k"]
        if k == "seed":
            np.random.seed(op["s"])
            return None
        if k == "scr":
            x = self.out_.get(op["of"])
            if x is not None:
                self.scribbled.add(op["of"])
                for i in range(len(x)):
                    x[i] = 1e300
            return None
        g = self.obj(op)
        if k in ("gen", "bad"):
            x = g(op["n"]) if callable(g) else g.generate(op["n"])
            self.out_[op["id"]] = x
            try:
                self.keep[op["id"]] = np.array(x, dtype=float, copy=True)
            except Exception:                # noqa: BLE001
                self.keep[op["id"]] = None
            return ["drawn", None if self.keep[op["id"]] is None else list(self.keep[op["id"]].shape)]
        if k == "par":
            if callable(g):
                return None
            p = g.parameters()
            out = {a: float(b) for a, b in p.items()}
            code = str(g.code())
            if op.get("scribble"):
                for a in list(p):
                    p[a] = -12345.0
                p["junk"] = 1
            return ["par", out, code]
        raise kernel.HarnessError(k)


def pristine(spec):
    w = GenWorld(spec)
    w.run()
    return {h["id"]: (h["out"], None if w.keep.get(h["id"]) is None else w.keep[h["id"]].ravel().tolist()) for h in w.sim.history}


class C15(CalcProp):
    id = "C15"
    rule = ("a run holds 1-5 generators (often several of one class with different parameters) or the underlying sampling functions and draws from them in "
            "1-3 threads in random order and sizes, with re-seeding, overwritten results, rejected sizes and interruptions in between, threads pre-empted at "
            "lines and draws and draws failing; sizes, laws, independence, freshness, parameters and reproducibility against a pristine process are judged; "
            "non-trivial = a thread switch or fault, or several generators in one run")
    assumptions = calc.ASSUME + ["sampling comparisons find deviations larger than about 3.7/sqrt(values drawn) in the distribution function; their error probability is below 1e-10"]
    quick = {"wall": 50, "runs": 200000, "timeout": 60, "min_wall": 60}

    def gen(self, seed, i):
        r = self.rng(seed, i)
        kinds = list(laws.PARAMS)
        k0 = kinds[(i + 5 * seed) % len(kinds)]
        objs = []
        for j in range(r.choice([1, 2, 2, 3, 4])):
            kind = k0 if j == 0 or r.random() < 0.6 else r.choice(kinds)
            objs.append({"kind": kind, "kw": laws.params(r, kind), "how": r.choice(["kw", "kw", "pos", "reg", "fn"]), "late": int(r.random() < 0.4)})
        ncl = r.choice([1, 1, 2, 2, 3])
        sizes = r.choice([[1, 2, 5, 30], [30, 100], [1, 100, 300], [7, 8, 9, 50], [1, 2, 64, 128], [257, 600, 1100]])
        clients, n = {}, 0
        for c in range(ncl):
            ops = []
            for _ in range(r.choice([2, 4, 6, 10])):
                n += 1
                k = r.randrange(len(objs))
                p = r.random()
                if p < 0.06:
                    o = {"k": "bad", "obj": k, "n": r.choice([-1, -7])}
                elif p < 0.12:
                    o = {"k": "par", "obj": k, "scribble": int(r.random() < 0.5)}
                elif p < 0.2 and ops:
                    o = {"k": "scr", "of": r.choice(ops)["id"]}
                elif p < 0.28:
                    o = {"k": "seed", "s": r.randrange(1000)}
                else:
                    o = {"k": "gen", "obj": k, "n": r.choice(sizes), "fresh": int(r.random() < 0.2)}
                    if objs[k]["kind"] in laws.SLOW:
                        o["n"] = min(o["n"], 60) if r.random() < 0.93 else r.choice([100, 300, 500])
                o["id"] = f"o{n}"
                ops.append(o)
            clients[f"t{c}"] = ops
        spec = {"seed": f"C15:{seed}:{i}", "objs": objs, "phases": [{"clients": clients}], "sched": self.sched(r), "max_steps": 3000000}
        spec["faults"] = {"mode": "explicit", "list": {}}
        if r.random() < 0.45:
            spec["line_faults"] = 1
            spec["faults"] = {"mode": "random", "budget": r.choice([1, 1, 2, 4]),
                              "rates": {"line": 10 ** r.uniform(-2.5, -0.7) if r.random() < 0.7 else 0,
                                        "rng": 10 ** r.uniform(-1.5, -0.3) if r.random() < 0.7 else 0}}
        return spec

    def execute(self, spec):
        w = GenWorld(spec)
        w.run()
        seams.lines_off()
        v = self.judge(spec, w) or self.seeds(spec, w)
        v, st, rec, sample = w.result(spec, v)
        if len(spec["objs"]) > 1:
            st["nontrivial"] = True
        return v, st, rec, sample

    def judge(self, spec, w):
        sim = w.sim
        if sim.stop_reason:
            return ("stuck", f"draws did not end: {sim.stop_reason} after {sim.steps} steps")
        seeded = any(h["op"]["k"] == "seed" for h in sim.history)
        pools, seen = {}, {}
        back = calc.reseeded(sim.history)
        for h in sim.history:
            op, out = h["op"], h["out"]
            if h["ret"] is None or "obj" not in op:
                continue
            o = spec["objs"][op["obj"]]
            what = f"{h['id']} by {h['task']}: {op['k']} of generator {op['obj']} ({o['kind']} {o['kw']}, made by {o['how']})"
            fired = w.fired_in(h["id"])
            if op["k"] == "bad":
                if out[0] == "ok" and not fired:
                    return ("bad-argument", f"{what} with size {op['n']} gave {out}")
                continue
            if out[0] == "fail":
                if not fired:
                    return ("fail", f"{what} failed with {out[1:]} although nothing went wrong")
                continue
            if fired:
                return ("swallowed", f"{what} returned although it was interrupted by {[sim.faults.record[k]['kind'] for k in fired]}")
            if op["k"] == "par" and out[1] is not None:
                want = {a: float(b) for a, b in o["kw"].items()}
                if out[1][1] != want:
                    return ("parameters", f"{what} reports {out[1][1]}")
                if not all(str(b) in out[1][2] for b in o["kw"].values()):
                    return ("parameters", f"{what} has the code {out[1][2]}")
                if seen.setdefault(("code", out[1][2]), (o["kind"], json.dumps(o["kw"], sort_keys=True))) != (o["kind"], json.dumps(o["kw"], sort_keys=True)):
                    return ("parameters", f"{what} has the code {out[1][2]} of another generator")
            if op["k"] == "gen":
                x = w.keep[h["id"]]
                if x is None or x.shape != (op["n"],):
                    return ("size", f"{what} with size {op['n']} returned {'no numbers' if x is None else 'shape ' + str(x.shape)}")
                if back(h):
                    continue
                pools.setdefault(json.dumps([o["kind"], o["kw"]], sort_keys=True), []).append((h, x, o))
        for k, items in pools.items():
            kind, kw = json.loads(k)
            lw = laws.law(kind, kw)
            for group in [[t] for t in items] + ([items] if len(items) > 1 and not seeded else []):
                xs = [t[1] for t in group]
                d = laws.off_law(np.concatenate(xs), lw) or laws.dependent(xs, lw)
                if d:
                    return ("law", f"{'+'.join(t[0]['id'] for t in group)} from {kind} {kw}: {d}")
        if not seeded:
            d = self.shared(pools)
            if d:
                return d
        for oid, x in w.keep.items():
            if oid in w.scribbled or x is None:
                continue
            if not np.array_equal(np.array(w.out_[oid], dtype=float), x, equal_nan=True):
                return ("changed-later", f"the sample returned by {oid} changed after it was returned")
        return None

    def shared(self, pools):
        """No draw is handed out twice, neither as it is nor through another parameter set of its kind."""
        bykind = {}
        for k, items in pools.items():
            kind, kw = json.loads(k)
            lw = laws.law(kind, kw)
            for h, x, o in items:
                u = lw.cdf(x)
                ok = (u > 1e-5) & (u < 1 - 1e-5)
                bykind.setdefault(kind, []).append((h, x, np.round(u[ok], 9)))
        for kind, items in bykind.items():
            exact, unif = {}, {}
            for h, x, u in items:
                for seen, vals in ((exact, x), (unif, u)):
                    hits = {}
                    for v in vals.tolist():
                        if v in seen:
                            hits[seen[v]] = hits.get(seen[v], 0) + 1
                        seen[v] = h["id"]
                    for other, c in hits.items():
                        if c >= 3:
                            return ("repeated", f"{h['id']} from {kind} shares {c} of its {len(vals)} draws with {other}")
        return None

    def seeds(self, spec, w):
        """After seeding, the same calls give what they give in a pristine process."""
        if len(spec["phases"][0]["clients"]) != 1:
            return None
        hist = w.sim.history
        starts = [i for i, h in enumerate(hist) if h["op"]["k"] == "seed"]
        for s in starts[:2]:
            seq = []
            for h in hist[s:]:
                if w.fired_in(h["id"]) or h["ret"] is None:
                    break
                seq.append(h)
            if not any(h["op"]["k"] == "gen" for h in seq):
                continue
            ref = {"seed": "ref", "objs": spec["objs"], "phases": [{"clients": {"a": [h["op"] for h in seq]}}], "sched": {"mode": "explicit"},
                   "faults": {"mode": "explicit", "list": {}}, "max_steps": 3000000}
            seams.lines_on()
            res = runner.run_forked(pristine, ref, 30)
            seams.lines_off()
            w.sim.probes["seed-reference"] += 1
            if res[0] != "ok":
                continue
            for h in seq:
                if h["op"]["k"] != "gen":
                    continue
                out, x = res[1][h["id"]]
                got = None if w.keep.get(h["id"]) is None else w.keep[h["id"]].ravel().tolist()
                if x is not None and (got is None or not calc.close(["num", got], ["num", x])):
                    return ("seed", f"{h['id']} ({spec['objs'][h['op']['obj']]['kind']}) after seeding with {hist[s]['op']['s']} gave {str(got)[:80]} but in a fresh process the same "
                            f"calls give {str(x)[:80]}")
        return None
