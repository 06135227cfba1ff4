"""C17: multiple-testing adjustments, over simulated campaigns of experiments."""
import copy
import json
import math

import numpy as np

from sim import kernel, runner, seams
from . import calc
from .calc import CalcProp, World

PROCS = {"BonferroniMultipleTesting": "any", "Holm": "any", "BenjaminiYekutieli": "any", "SidakMultipleTesting": "positive", "SidakHolm": "positive"}
FDR = {"BenjaminiYekutieli"}
TOL = 1e-9


def procedure(name):
    import pysatl_criterion as pc
    return getattr(pc, name)


# ---------------------------------------------------------------- experiments
def step(kind, n, a):
    """Thresholds of a step-up procedure at level a, the k-th for k rejections."""
    k = np.arange(1, n + 1)
    if kind == "bh":
        return k * a / n
    if kind == "by":
        return k * a / (n * (1 / k).sum())
    if kind == "hochberg":
        return a / (n - k + 1)
    raise KeyError(kind)


def nulls(g, kind, m, a, T):
    """T families of m p-values of true hypotheses: each one uniform, dependent as `kind` says."""
    u = g.random((T, m))
    if kind == "common":
        return np.repeat(u[:, :1], m, 1)
    if kind == "latin":                      # as negatively dependent as can be: they cover [0, 1] evenly
        p = (u[:, :1] + np.arange(m) / m) % 1.0
        return g.permuted(p, axis=1)
    if kind == "pairs":
        for j in range(1, m, 2):
            u[:, j] = 1 - u[:, j - 1]
        return u
    if kind == "blocks":
        for j in range(1, m):
            if j % 3:
                u[:, j] = u[:, j - 1]
        return u
    if kind == "gauss":
        from scipy.special import ndtr
        z, w = g.standard_normal((T, m)), g.standard_normal((T, 1))
        r = 0.6
        return ndtr(math.sqrt(r) * w + math.sqrt(1 - r) * z)
    if kind.startswith("sharp-"):            # the least favourable law for a step-up procedure
        t = step(kind[6:], m, a)
        lo = np.concatenate([[0.0], t[:-1]])
        q = (t - lo) * m / np.arange(1, m + 1)
        keep = np.cumsum(q) <= 1
        q = np.where(keep, q, 0.0)
        top = t[keep][-1] if keep.any() else 0.0
        p = top + (1 - top) * u
        edges = np.cumsum(q)
        x = g.random(T)
        k = np.searchsorted(edges, x, "right")             # index of the event, len(q) if none
        for row in np.nonzero(k < m)[0]:
            j = k[row]
            if q[j] > 0:
                who = g.permutation(m)[:j + 1]
                p[row, who] = lo[j] + (t[j] - lo[j]) * g.random()
        return p
    return u


def families(op):
    """The p-values of a campaign and which hypotheses are true."""
    g = np.random.Generator(np.random.PCG64(op["s"]))
    n, m, T = op["n"], op["n"] - op["n1"], op["T"]
    p = np.empty((T, n))
    true = np.zeros((T, n), dtype=bool)
    p[:, :m] = nulls(g, op["dep"], m, op["a"], T) if m else 0
    true[:, :m] = True
    if n > m:
        x = g.random((T, n - m))
        p[:, m:] = {"zero": 0 * x, "small": x ** 8, "near": op["a"] * x / n, "steps": op["a"] * np.arange(m + 1, n + 1)[None, :] / n + 0 * x}[op["false"]]
    if op.get("mix"):
        for row in range(T):
            o = g.permutation(n)
            p[row], true[row] = p[row, o], true[row, o]
    return p, true


def edge_list(op):
    g = np.random.Generator(np.random.PCG64(op["s"]))
    n = op["n"]
    x = g.random(n) ** op.get("pow", 1)
    if op.get("edge"):
        special = [0.0, 1.0, 5e-324, 1e-300, 1e-20, 1e-17, 2 ** -53, 1 - 2 ** -53, 0.5, 0.05, 0.05 / max(1, n), 0.1]
        for j in range(n):
            if g.random() < 0.6:
                x[j] = special[g.integers(len(special))]
    if op.get("ties") and n:
        x = x[g.integers(0, max(1, n // 2), n)]
    return [float(v) for v in x]


class CampaignWorld(World):
    def __init__(self, spec):
        super().__init__(spec)
        self.bufs = {}

    def do(self, op):
        P = procedure(op["proc"]) if "proc" in op else None
        k = op["k"]
        if k == "bad":
            return [list(x) for x in P.test(list(op["ps"]), op["a"])]
        if k == "one":
            ps = edge_list(op)
            was = list(ps)
            out = P.adjust(ps) if op["how"] == "adjust" else P.test(ps, op["a"])
            adj = out if op["how"] == "adjust" else out[1]
            rej = None if op["how"] == "adjust" else list(out[0])
            self.bufs[op["id"]] = (adj, [float(v) for v in adj])
            if op.get("reuse"):
                ps[:] = [0.123] * len(ps)
            elif ps != was:
                return ["changed"]
            return ["adj", [float(v) for v in adj], rej]
        if k == "camp":
            p, true = families(op)
            bad, viol, fd, fdc, same = None, 0, 0.0, 0, True
            for row in range(len(p)):
                ps = p[row].tolist()
                if op["how"] == "test":
                    rej, adj = P.test(ps, op["a"])
                    if bad is None and not decided(rej, adj, op["a"]):
                        bad = f"test at level {op['a']} rejects {list(rej)} by adjusted p-values {adj}"
                else:
                    adj = P.adjust(ps)
                if bad is None and row * len(ps) < 3000:
                    bad = improper(ps, adj)
                    if bad:
                        bad = f"p-values {ps}: {bad}"
                rej = np.asarray(adj) <= op["a"]
                v = int((rej & true[row]).sum())
                viol += v > 0
                fd += v / max(1, int(rej.sum()))
                if op["proc"] == "Holm" and same:
                    same = list(rej) == list(step_up(p[row], op["a"]))
            return ["camp", bad, viol, fd, len(p), same]
        raise kernel.HarnessError(k)


def decided(rej, adj, a):
    """Whether the decisions are those of the adjusted p-values; at equality either will do."""
    return len(rej) == len(adj) and all(bool(d) == (x < a) or x == a for d, x in zip(rej, adj))


def step_up(p, a):
    """What a step-up procedure with Holm's thresholds (Hochberg's) rejects."""
    n = len(p)
    o = np.argsort(p, kind="stable")
    ok = [p[o[i]] * (n - i) <= a for i in range(n)]
    k = max([i + 1 for i in range(n) if ok[i]], default=0)
    r = np.zeros(n, dtype=bool)
    r[o[:k]] = True
    return r


def improper(ps, adj):
    """What is wrong with these adjusted p-values, whatever the procedure."""
    if len(adj) != len(ps):
        return f"{len(adj)} adjusted p-values for {len(ps)}"
    for x, y in zip(ps, adj):
        if not 0 <= y <= 1:
            return f"{x!r} is adjusted to {y!r}, not in [0, 1]"
        if y < x * (1 - TOL):
            return f"{x!r} is adjusted to {y!r}, below the raw value"
    if len(ps) > 1:
        x, y = np.asarray(ps, dtype=float), np.asarray(adj, dtype=float)
        o = np.lexsort((y, x))
        top = np.maximum.accumulate(y[o])
        i = int((top[:-1] - y[o][1:]).argmax())
        if top[i] > y[o][i + 1] * (1 + TOL):
            return f"the order is not preserved: {ps[o[i + 1]]!r} is adjusted to {adj[o[i + 1]]!r}, but a p-value not larger to {float(top[i])!r}"
        for i in range(len(o) - 1):
            if x[o[i]] == x[o[i + 1]] and y[o[i + 1]] > y[o[i]] * (1 + TOL):
                return f"{ps[o[i]]!r} is adjusted to {adj[o[i]]!r} and to {adj[o[i + 1]]!r}"
    return None


def excess(total, T, level):
    """Whether a mean of T values in [0, 1] shows an expectation above level (Chernoff bound, error 1e-12)."""
    m = total / T
    if m <= level:
        return False
    if level <= 0:
        return total > 0
    kl = (m * math.log(m / level) if m else 0) + ((1 - m) * math.log((1 - m) / (1 - level)) if m < 1 else 0)
    return T * kl > 27.6


def alone(arg):
    w = CampaignWorld(arg)
    w.run()
    return w.sim.history[0]["out"]


class C17(CalcProp):
    id = "C17"
    rule = ("half of the runs are campaigns: thousands of families of hypotheses, true ones with uniform p-values that are independent, equal, clustered, Gaussian-dependent, "
            "as negatively dependent as possible or least favourable to a step-up procedure (only the positive ones for the Sidak methods), false ones with zero, small or "
            "threshold p-values, adjusted by one procedure; the number of families with a false rejection (or the mean false discovery proportion) must not exceed the level, "
            "with an error probability below 1e-11 per run.  The others adjust lists with extreme values and ties in 1-3 threads, pre-empted and interrupted at lines, lists reused "
            "by their owner; range, order, raw bounds and equality with the same adjustment in a pristine process are judged; non-trivial = a campaign, a thread switch or a fault")
    real = ["pysatl_criterion.hypothesis_testing.multiple_testing unmodified"]
    stubs = ["experiments: p-values of true hypotheses are drawn by the simulator with uniform marginals", "thread scheduler and interruptions"]
    assumptions = ["p-values of true hypotheses are uniform; Bonferroni, Holm and Benjamini-Yekutieli are held to any dependence, the Sidak methods to independence and positive dependence",
                   "comparisons with the raw values and of the order allow a relative rounding error of 1e-9",
                   "a campaign finds an error rate that exceeds the level by about 5 standard deviations of its size (7% at level 0.3)"]
    quick = {"wall": 30, "runs": 200000, "timeout": 60, "min_wall": 60}

    def gen(self, seed, i):
        r = self.rng(seed, i)
        if i % 2 == 0:
            proc = list(PROCS)[(i // 2 + seed) % len(PROCS)]
            any_ = PROCS[proc] == "any"
            deps = ["indep", "common", "blocks", "gauss"] + (["latin", "latin", "pairs", "sharp-bh", "sharp-by", "sharp-hochberg", "sharp-hochberg"] if any_ else [])
            n = r.choice([1, 2, 2, 3, 4, 5, 8, 12, 20, 50, 150, 150] if r.random() < 0.93 else [400, 1100, 2600, 10500])
            n1 = r.choice([0, 0, 0, 1, n // 2, n - 1]) if n > 1 else 0
            op = {"id": "o1", "k": "camp", "proc": proc, "dep": r.choice(deps), "n": n, "n1": min(n1, n - 1), "a": r.choice([0.01, 0.05, 0.1, 0.2, 0.3, 0.45, round(r.uniform(0.02, 0.5), 3)]),
                  "T": max(250, min(20000, 600000 // n)), "s": r.randrange(1 << 60), "how": r.choice(["test", "adjust"]),
                  "false": r.choice(["zero", "small", "near", "steps"]), "mix": int(r.random() < 0.5)}
            return {"seed": f"C17:{seed}:{i}", "phases": [{"clients": {"t0": [op]}}], "sched": {"mode": "random", "concurrency": False},
                    "faults": {"mode": "explicit", "list": {}}}
        clients, n = {}, 0
        mine = r.sample(list(PROCS), r.choice([1, 1, 2, 5]))
        sizes = r.choice([[1, 2, 3], [0, 1, 5, 10], [10, 30, 100], [2, 3, 400]])
        for c in range(r.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(r.choice([2, 4, 8])):
                n += 1
                o = {"id": f"o{n}", "k": "one", "proc": r.choice(mine), "n": r.choice(sizes) + r.choice([0, 0, 1]), "s": r.randrange(1 << 60), "pow": r.choice([1, 1, 4, 30]),
                     "edge": int(r.random() < 0.4), "ties": int(r.random() < 0.3), "how": r.choice(["adjust", "test"]), "a": r.choice([0.05, 0.01, 0.3]), "reuse": int(r.random() < 0.2)}
                if r.random() < 0.01:
                    o["n"] = r.choice([2000, 10001, 12000])
                if r.random() < 0.07:
                    bad = edge_list(dict(o, n=max(1, min(o["n"], 50))))
                    bad[r.randrange(len(bad))] = r.choice([-0.1, 1.5, -1e-9, 2.0, float("inf"), 1 + 1e-9])
                    o = {"id": o["id"], "k": "bad", "proc": o["proc"], "ps": bad, "a": o["a"]}
                ops.append(o)
                if r.random() < 0.2:
                    n += 1
                    ops.append(dict(r.choice(ops), id=f"o{n}"))
            clients[f"t{c}"] = ops
        spec = {"seed": f"C17:{seed}:{i}", "phases": [{"clients": clients}], "sched": self.sched(r), "faults": {"mode": "explicit", "list": {}}, "max_steps": 3000000}
        if r.random() < 0.4:
            spec["line_faults"] = 1
            spec["faults"] = {"mode": "random", "budget": r.choice([1, 2, 4]), "rates": {"line": 10 ** r.uniform(-3, -1)}}
        return spec

    def execute(self, spec):
        ops = [o for x in spec["phases"][0]["clients"].values() for o in x]
        camp = any(o["k"] == "camp" for o in ops)
        if camp:
            seams.lines_off()
        refs = {}
        if not camp:
            seams.lines_off()
            for o in ops:
                if o["k"] == "one":
                    res = runner.run_forked(alone, {"seed": "ref", "phases": [{"clients": {"a": [o]}}], "sched": {"mode": "explicit"},
                                                    "faults": {"mode": "explicit", "list": {}}}, 30)
                    if res[0] == "ok":
                        refs[o["id"]] = res[1]
            seams.lines_on()
        w = CampaignWorld(spec)
        w.run()
        seams.lines_off()
        v, st, rec, sample = w.result(spec, self.judge(spec, w, refs))
        if camp:
            st["nontrivial"] = True
            st["probes"]["families"] = sum(o.get("T", 0) for o in ops)
        return v, st, rec, sample

    def judge(self, spec, w, refs):
        if w.sim.stop_reason:
            return ("stuck", f"adjustments did not end: {w.sim.stop_reason}")
        for h in w.sim.history:
            op, out = h["op"], h["out"]
            if h["ret"] is None:
                continue
            fired = w.fired_in(h["id"])
            what = f"{h['id']} by {h['task']}: {op['proc']}"
            if op["k"] == "bad":
                if out[0] == "ok" and not fired:
                    return ("bad-argument", f"{what}.test accepts the p-values {op['ps']} and answers {out[1]}")
                continue
            if out[0] == "fail":
                if not fired:
                    return ("fail", f"{what} {op} failed with {out[1:]} although nothing went wrong")
                continue
            if fired:
                return ("swallowed", f"{what} returned although it was interrupted")
            r = out[1]
            if r[0] == "changed":
                return ("argument-modified", f"{what}.{op['how']} modified the list it was given")
            if r[0] == "adj":
                ps = edge_list(op)
                d = improper(ps, r[1])
                if d:
                    return ("improper", f"{what}.{op['how']} of {short(ps)}: {d}")
                if r[2] is not None and not decided(r[2], r[1], op["a"]):
                    return ("decision", f"{what}.test at level {op['a']} rejects {short(r[2])} by adjusted p-values {short(r[1])}")
                ref = refs.get(h["id"])
                if ref is not None and (ref[0] != "ok" or ref[1] != r):
                    return ("value", f"{what}.{op['how']} of {short(ps)} gave {short(r[1])} but alone, in a fresh process, {str(ref[1])[:200]}")
                obj, snap = w.bufs[h["id"]]
                if [float(x) for x in obj] != snap:
                    return ("changed-later", f"the list returned by {h['id']} changed after it was returned")
            if r[0] == "camp":
                bad, viol, fd, T, same = r[1:]
                if bad:
                    return ("improper", f"{what}: {bad}")
                true = op["n"] - op["n1"]
                name = f"{what} at level {op['a']} on {T} families of {op['n']} hypotheses, {true} of them true with {op['dep']} p-values"
                if op["proc"] in FDR:
                    if excess(fd, T, op["a"]):
                        return ("fdr", f"{name}: mean false discovery proportion {fd / T:.4f}")
                elif excess(viol, T, op["a"]):
                    return ("fwer", f"{name}: {viol} families ({viol / T:.4f}) with a false rejection",
                            "holm-is-step-up" if op["proc"] == "Holm" and same and op["dep"] not in ("indep", "common", "blocks", "gauss") else "fwer")
        return None


def short(x):
    s = json.dumps([v if isinstance(v, bool) else float(v) for v in x])
    return s if len(s) < 300 else s[:300] + "..."


assert copy and calc
