"""C16: registry lookups (generators, descriptors, criteria) in processes that differ in every accident."""
import enum
import hashlib
import importlib
import inspect
import json
import os
import pkgutil
import random
import subprocess
import sys

import numpy as np

from sim import kernel, runner, seams
from . import calc, laws
from .calc import CalcProp, World

NAMES = {"gen": ("pysatl_criterion.utils.generator", "get_available_generator"),
         "desc": ("pysatl_criterion.utils.distribution", "get_available_distribution_descriptor"),
         "crit": ("pysatl_criterion.utils.statistic", "get_available_criteria")}
UNKNOWN = ["none", "string", "object", "number", "member"]


def modules():
    """Every module of the package, parents first."""
    out = []

    def walk(path, prefix):
        for m in sorted(pkgutil.iter_modules([path]), key=lambda m: m.name):
            out.append(prefix + m.name)
            if m.ispkg:
                walk(os.path.join(path, m.name), prefix + m.name + ".")
    walk(os.path.join(seams.REPO_SRC, "pysatl_criterion"), "pysatl_criterion.")
    return out


def load(name):
    try:
        importlib.import_module(name)
    except Exception:                        # noqa: BLE001  a few modules cannot be imported at all
        return False
    return True


def fresh_process(seed):
    """This (forked) process becomes one that has not imported the package, in which classes and
    enumeration members hash, and directories list, in an order drawn from `seed`."""
    for k in [k for k in sys.modules if k == "pysatl_criterion" or k.startswith("pysatl_criterion.")]:
        del sys.modules[k]
    calc._cat = None
    if seed is None:
        return

    seams.SALT[0] = str(seed)
    r = random.Random(f"dir{seed}")
    listdir = os.listdir
    root = os.path.realpath(seams.REPO_SRC)

    def ls(p="."):
        out = listdir(p)
        if isinstance(p, str) and os.path.realpath(p).startswith(root):
            out = sorted(out)
            r.shuffle(out)
        return out
    os.listdir = ls


def value(x):
    return getattr(x, "value", x)


def cls_name(x):
    return type(x).__module__ + "." + type(x).__qualname__


def floats(d):
    return {str(a): float(b) for a, b in d.items()}


def ask(kind, dist, kw=None):
    """One lookup, as plain data, plus what it returned."""
    mod, fn = NAMES[kind]
    f = getattr(importlib.import_module(mod), fn)
    if kind == "gen":
        x = f(dist, kw)
        return {"cls": cls_name(x), "type": value(x.distribution_type()), "params": floats(x.parameters()), "code": str(x.code())}, x
    if kind == "desc":
        x = f(dist)
        return {"cls": cls_name(x), "type": value(x.type()), "params": [[p.name, p.default, type(p.validator).__name__] for p in x.parameters()]}, x
    x = f(dist)
    return {"codes": [str(c) for c in x]}, x


def subclasses(c):
    out, todo = [], [c]
    while todo:
        for s in todo.pop().__subclasses__():
            if s not in out:
                out.append(s)
                todo.append(s)
    return [s for s in out if not inspect.isabstract(s) and s.__module__.startswith("pysatl_criterion.")]


def reference(_):
    """What is shipped, found by importing everything, and what a lookup in a plain process says."""
    fresh_process(None)
    for m in modules():
        load(m)
    from pysatl_criterion import DistributionType
    from pysatl_criterion.distribution.distributions import DistributionDescriptor
    from pysatl_criterion.generator.model import AbstractRVSGenerator
    from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic
    out = {}
    gens, descs, stats = subclasses(AbstractRVSGenerator), subclasses(DistributionDescriptor), subclasses(AbstractGoodnessOfFitStatistic)
    for d in DistributionType:
        k = d.value
        e = out[k] = {"gens": sorted(c.__module__ + "." + c.__qualname__ for c in gens if c.distribution_type() == d),
                      "descs": sorted(c.__module__ + "." + c.__qualname__ for c in descs if c.type() == d),
                      "codes": sorted(c.short_code() for c in stats if c.distribution() == d)}
        for kind in list(NAMES) + ["gen0"]:
            try:
                e[kind] = ask(kind[:3] if kind == "gen0" else kind, d, dict(laws.PARAMS[k][0]) if kind == "gen" else None)[0]
            except Exception as x:           # noqa: BLE001
                e[kind] = {"fails": type(x).__name__}
    return out


_ref = None


def ref():
    global _ref
    if _ref is None:
        res = runner.run_forked(reference, None, 120)
        if res[0] != "ok":
            raise kernel.HarnessError(f"reference process: {res}")
        _ref = res[1]
    return _ref


class LookWorld(World):
    def __init__(self, spec):
        super().__init__(spec)
        fresh_process(spec["accident"])
        for m in spec["pre"]:
            load(m)
        self.kept, self.samples, self.args = {}, {}, {}

    def dist(self, op):
        from pysatl_criterion import DistributionType
        u = op.get("unknown")
        if u == "member":
            return enum.Enum("DistributionType", {"ODD": "no_such_distribution"}).ODD
        if u:
            return {"none": None, "string": "no_such_distribution", "object": object(), "number": 3}[u]
        return DistributionType(op["d"])

    def do(self, op):
        k = op["k"]
        if k == "imp":
            return load(op["m"])
        if k == "mess":
            x = self.kept.get(op["of"])
            if isinstance(x, list):
                x.append("JUNK")
                x.reverse()
            elif x is not None:
                p = x.parameters()
                if isinstance(p, dict):
                    for a in list(p):
                        p[a] = -777.0
                elif isinstance(p, list):
                    p.clear()
            return None
        if k == "draw":
            x = self.kept.get(op["of"])
            if x is None or isinstance(x, list) or not hasattr(x, "generate"):
                return None
            self.samples[op["id"]] = np.array(x.generate(op["n"]), dtype=float)
            return None
        kw = op.get("kw")
        kw = None if kw is None else dict(kw)
        r, x = ask(k, self.dist(op), kw)
        if kw is not None and kw != op["kw"]:
            r["argument"] = kw
        self.kept[op["id"]] = x
        return r


def right(ref, op, got):
    """None if `got` (an answer as plain data) is right for lookup `op`, else why not."""
    k = op["k"]
    if op.get("unknown"):
        if k == "crit" and got == {"codes": []}:
            return None
        return f"answered {got} for a distribution type that is not shipped"
    e = ref[op["d"]]
    if "argument" in got:
        return f"changed the parameters it was given to {got['argument']}"
    if k == "crit":
        if sorted(got["codes"]) != e["codes"]:
            miss = [c for c in e["codes"] if c not in got["codes"]]
            extra = [c for c in got["codes"] if c not in e["codes"]]
            return f"lists {len(got['codes'])} criteria, {len(e['codes'])} are shipped (missing {miss[:5]}, not shipped {extra[:5]})"
        if got["codes"] != e["crit"].get("codes"):
            return f"lists the criteria in another order than a fresh process: {got['codes'][:6]} / {str(e['crit'].get('codes'))[:60]}"
        return None
    have = e["gens" if k == "gen" else "descs"]
    if got["type"] != op["d"] or got["cls"] not in have:
        return f"answered with {got['cls']} of {got['type']}; shipped: {have}"
    if got["cls"] != e[k].get("cls"):
        return f"answered with {got['cls']} but a fresh process with {e[k].get('cls')}"
    if k == "desc" and got["params"] != e[k]["params"]:
        return f"describes the parameters {got['params']}, a fresh process {e[k]['params']}"
    if k == "gen":
        want = floats(op["kw"]) if op.get("kw") and "no_such_parameter" not in op["kw"] else e["gen0"].get("params", got["params"])
        if got["params"] != want:
            return f"answered with a generator of {got['params']} instead of {want}"
    return None


class C16(CalcProp):
    id = "C16"
    real = ["pysatl_criterion.utils (generator, statistic, distribution), generator, statistics and distribution modules unmodified, freshly imported in every run"]
    stubs = ["hashes of the package's classes and enumeration members and the order of directory listings (drawn from the seed)", "thread scheduler: threads are pre-empted at any line of the code under test",
             "asynchronous exceptions (injected at lines)"]
    assumptions = ["an import is not pre-empted and not interrupted", "string hashes vary only in the runs that start a new interpreter"]
    rule = ("a run starts as a process that has not imported the package, imports a random selection of its modules in random order under drawn class, enumeration and directory orders, then looks generators, descriptors and criteria up "
            "in 1-3 threads pre-empted at lines, among further imports, lookups of unknown types, lookups with rejected parameters, overwritten answers and interruptions; every answer is compared with what is shipped and with a plain "
            "process; some runs start a new interpreter with another string-hash seed instead; non-trivial = any lookup after a non-default import order, switch or fault")
    quick = {"wall": 50, "runs": 200000, "timeout": 120, "min_wall": 60}

    def prepare(self):
        ref()

    def gen(self, seed, i):
        r = self.rng(seed, i)
        truth = ref()
        mods = modules()
        kinds = list(truth)
        stat_kinds = [k for k in kinds if truth[k]["codes"]]
        spec = {"seed": f"C16:{seed}:{i}", "accident": r.randrange(1 << 40), "phases": [{"clients": {}}], "sched": self.sched(r),
                "faults": {"mode": "explicit", "list": {}}, "max_steps": 3000000}
        p = r.random()
        lazy = ["pysatl_criterion." + m for m in ("utils.generator", "utils.statistic", "utils.distribution")]
        spec["pre"] = [] if p < 0.25 else r.sample(lazy, r.choice([1, 2, 3])) if p < 0.45 else r.sample(mods, r.randint(1, 6)) if p < 0.8 else r.sample(mods, len(mods))
        if r.random() < 0.05:
            spec["exec"] = {"hash": r.randrange(1, 1 << 32), "ask": r.sample(lazy, 3)}
            return spec
        n = 0
        clients = spec["phases"][0]["clients"]
        for c in range(r.choice([1, 1, 2, 2, 3])):
            ops = []
            for _ in range(r.choice([2, 4, 8, 14])):
                n += 1
                o = {"id": f"o{n}"}
                look = [x for x in ops if x["k"] in NAMES and "unknown" not in x]
                o["k"] = r.choices(["gen", "desc", "crit", "imp", "mess", "draw"], [8, 3, 4, 3, 2, 1.5])[0]
                if o["k"] in ("mess", "draw") and not look:
                    o["k"] = "gen"
                if o["k"] == "imp":
                    o["m"] = r.choice(mods)
                elif o["k"] in ("mess", "draw"):
                    o["of"] = r.choice(look)["id"]
                    o["n"] = r.choice([20, 100, 400])
                else:
                    o["d"] = r.choice(stat_kinds) if r.random() < (0.8 if o["k"] == "crit" else 0.4) else r.choice(kinds)
                    if r.random() < 0.08:
                        o["unknown"] = r.choice(UNKNOWN)
                    if o["k"] == "gen":
                        q = r.random()
                        o["kw"] = None if q < 0.15 else {} if q < 0.25 else {"no_such_parameter": 1.0} if q < 0.33 else dict(r.choice(laws.PARAMS[o["d"]]))
                ops.append(o)
            clients[f"t{c}"] = ops
        if r.random() < 0.35:
            spec["line_faults"] = 1
            spec["faults"] = {"mode": "random", "budget": r.choice([1, 1, 2, 4]), "rates": {"line": 10 ** r.uniform(-3, -1)}}
        return spec

    def elements(self, spec):
        return super().elements(spec) + [["pre", 0, m] for m in spec["pre"]]

    def drop(self, spec, els):
        s = super().drop(spec, els)
        gone = {e[2] for e in els if e[0] == "pre"}
        s["pre"] = [m for m in s["pre"] if m not in gone]
        return s

    def execute(self, spec):
        if spec.get("exec"):
            return self.interpreter(spec)
        w = LookWorld(spec)
        w.run()
        v, st, rec, sample = w.result(spec, self.shipped() or self.judge(spec, w))
        st["nontrivial"] = bool(spec["pre"] or st["switches"] or sum(st["fired"].values()))
        return v, st, rec, sample

    def shipped(self):
        for k, e in ref().items():
            if e["codes"] and len(e["gens"]) != 1:
                return ("generators", f"{len(e['gens'])} generators are shipped for {k}, which {len(e['codes'])} statistics name: {e['gens']}")
        return None

    def judge(self, spec, w):
        sim, truth = w.sim, ref()
        if sim.stop_reason:
            return ("stuck", f"lookups did not end: {sim.stop_reason} after {sim.steps} steps")
        last = {}
        for h in sim.history:
            op, out = h["op"], h["out"]
            if h["ret"] is None or op["k"] not in ("gen", "desc", "crit", "draw"):
                continue
            fired = w.fired_in(h["id"])
            if op["k"] == "draw":
                src = last.get(op["of"])
                if src is not None and out[0] == "fail" and not fired and src["op"].get("kw") and "no_such_parameter" not in src["op"]["kw"]:
                    return ("fail", f"{h['id']} by {h['task']}: drawing from the generator that {op['of']} gave failed with {out[1:]}")
                if src is not None and src["op"].get("kw") and "no_such_parameter" not in src["op"]["kw"] and h["id"] in w.samples:
                    o = src["op"]
                    d = laws.off_law(w.samples[h["id"]], laws.law(o["d"], o["kw"]))
                    if d or len(w.samples[h["id"]]) != op["n"]:
                        return ("law", f"the generator that {op['of']} gave for {o['d']} {o['kw']}: {d or 'wrong size'}")
                continue
            what = f"{h['id']} by {h['task']}: {NAMES[op['k']][1]}({op.get('unknown') or op['d']}{', ' + str(op.get('kw')) if op['k'] == 'gen' else ''})"
            if out[0] == "fail":
                bad = op.get("unknown") or (op.get("kw") or {}).get("no_such_parameter") or (op["k"] == "gen" and not op["kw"] and "fails" in truth[op["d"]]["gen0"]) or not truth[op["d"]][{"gen": "gens", "desc": "descs", "crit": "codes"}[op["k"]]]
                if not fired and not (bad and op["k"] != "crit") and not (op["k"] == "crit" and op.get("unknown")):
                    return ("fail", f"{what} failed with {out[1:]}")
                continue
            bad = right(truth, op, out[1])
            if bad:
                return ("answer", f"{what} {bad}")
            last[h["id"]] = h
        for oid, h in last.items():
            x = w.kept.get(oid)
            if h["op"]["k"] == "gen" and floats(x.parameters()) != h["out"][1]["params"]:
                return ("changed-later", f"the generator that {oid} gave had the parameters {h['out'][1]['params']} and has now {floats(x.parameters())}")
        return None

    def interpreter(self, spec):
        """A new interpreter with another hash seed and import order."""
        env = {k: v for k, v in os.environ.items() if not k.startswith("SIM_READY")}
        env.update(PYTHONHASHSEED=str(spec["exec"]["hash"]), PYTHONDONTWRITEBYTECODE="1")
        here = os.path.dirname(os.path.abspath(__file__))
        p = subprocess.run([sys.executable, os.path.join(here, "fresh.py"), json.dumps({"src": seams.REPO_SRC, "pre": spec["pre"], "ask": spec["exec"]["ask"]})],
                           env=env, capture_output=True, text=True, timeout=100, cwd="/")
        if p.returncode != 0:
            raise kernel.HarnessError("interpreter: " + p.stderr[-1500:])
        v = self.shipped()
        truth = ref()
        for k, d, got in json.loads(p.stdout.splitlines()[-1]):
            if v:
                break
            fails, want = "fails" in got, truth[d]["gen0" if k == "gen" else k]
            if fails != ("fails" in want):
                v = ("answer", f"in a new interpreter with string-hash seed {spec['exec']['hash']} {NAMES[k][1]}({d}) gave {str(got)[:200]}, elsewhere {str(want)[:200]}")
            bad = None if fails else right(truth, {"k": k, "d": d}, got)
            if bad and not v:
                v = ("answer", f"in a new interpreter with string-hash seed {spec['exec']['hash']} {NAMES[k][1]}({d}) {bad}")
        if v is not None:
            v = {"cls": v[0], "text": v[1], "sig": v[0]}
        dg = hashlib.blake2b(p.stdout.encode(), digest_size=12).hexdigest()
        st = {"fired": {"process.hash_seed": 1}, "steps": 0, "switches": 0, "sim_s": 0.0, "probes": {"new-interpreter": 1}, "kinds": {}, "ops": {"exec.ok": 1}, "digest": dg,
              "inter": hashlib.blake2b((dg + spec["seed"]).encode(), digest_size=12).hexdigest(), "nontrivial": True}
        return v, st, {"sched": [{"mode": "explicit"}], "faults": [{"mode": "explicit", "list": {}}]}, {"seed": spec["seed"], "exec": spec["exec"], "imported first": spec["pre"][:6]}
