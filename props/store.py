"""C01-C07: the limit-distribution store on a simulated machine."""
from . import world
from .base import Prop

REAL = ["pysatl_criterion.persistence (storage, ORM, column type) unmodified", "SQLAlchemy engine, session and connection pool",
        "Python sqlite3 module and SQLite 3.45 engine (pager, journal, B-tree, recovery)", "zstandard compression"]
STUBS = ["disk, file locks, file-system clock and randomness under SQLite (simulated VFS)",
         "thread scheduler, locks and condition variables, time.time/monotonic/sleep (simulated)",
         "process kill and power loss (simulated: module state re-created, page cache or unsynced writes dropped)"]
ASSUME = ["directory operations (create, delete of the journal) are durable in order",
          "a sync makes all earlier writes of that file durable", "SQLite's default journal mode and synchronous setting, plus WAL in some runs",
          "simulated processes share SQLAlchemy's module state but not the module state of the code under test",
          "pre-emption inside SQLAlchemy and SQLite happens at file operations, lock operations and native calls only"]

CODES = ["KS", "ks", "KS_", "K%S", "AD", "CVM_GOODNESS_OF_FIT", "ω²", "A' OR '1'='1", "KS "]
PARAMS = [[], [0.0], [1.0], [1.5, 2.0], [2.0, 1.5], [0.1 + 0.2], [0.3], [-1.0], [1e-9]]


class Gen:
    """Random workloads over a small universe of keys."""

    def __init__(self, r, ncodes=3, nparams=2, nsizes=2, nmc=2, nexp=1, size_hi=6, flavour="plain"):
        self.r = r
        self.codes = r.sample(CODES, ncodes)
        self.params = r.sample(PARAMS, nparams)
        base = r.choice([10, 30, 100])
        self.sizes = r.sample([base - 2, base - 1, base, base + 1, base + 2, base + 5], nsizes)
        self.mcs = r.sample(r.choice([[1, 10, 100, 1000, 10000], [2, 9, 10, 99, 100, 1000], [7, 8, 50, 300, 1000000]]), nmc)
        self.exps = list(range(1, nexp + 1))
        self.size_hi = size_hi
        self.flavour = flavour
        self.v = 0
        self.n = 0

    def key(self):
        r = self.r
        return {"c": r.choice(self.codes), "p": r.choice(self.params), "n": r.choice(self.sizes), "m": r.choice(self.mcs)}

    def rec(self):
        self.v += 1
        k = self.key()
        size = 1 + int(self.size_hi * self.r.random() ** 2)
        if self.r.random() < 0.03:
            size = self.r.choice([500, 3000])
        k.update(e=self.r.choice(self.exps), v=self.v, size=size, flavour=self.flavour)
        if self.r.random() < 0.1:
            k["flavour"] = "flat"
        return k

    def batch(self, n, distinct=True):
        out = [self.rec() for _ in range(n)]
        if distinct:
            # several independent keys: spread over experiments too
            for j, x in enumerate(out):
                x["e"] = self.exps[0] if self.r.random() < 0.7 else self.r.choice(self.exps)
        return out

    def wide_batch(self, n, start=10):
        """n records with n different keys."""
        out = []
        for j in range(n):
            x = self.rec()
            x["n"] = start + j
            x["size"] = min(x["size"], 4)
            out.append(x)
        return out

    def op(self, mix):
        self.n += 1
        k = self.r.choices(list(mix), list(mix.values()))[0]
        o = {"id": f"o{self.n}", "k": k}
        r = self.r
        if k == "ins":
            o["rec"] = self.rec()
        elif k == "bulk":
            o["recs"] = self.batch(r.choice([0, 1, 2, 2, 3, 4, 6]))
        elif k in ("del", "get"):
            o.update(self.key())
            if r.random() < 0.05:
                o["m"] += 1
        elif k == "cv":
            x = self.key()
            o.update(c=x["c"], n=x["n"] + r.choice([0, 0, 0, 1, -1]), err=r.choice([0, 0, 1, 2, 5]))
        elif k == "bget":
            cs = r.sample(self.codes, r.randint(1, len(self.codes)))
            if r.random() < 0.1:
                cs.append("never-stored")
            o.update(codes=cs, n=r.choice(self.sizes) + r.choice([0, 0, 1, -1]), err=r.choice([0, 0, 1, 2, 5]))
        return o

    def ops(self, n, mix):
        return [self.op(mix) for _ in range(n)]


def clients(r, names, nproc):
    procs = {f"p{i}": [] for i in range(nproc)}
    for j, c in enumerate(names):
        procs[f"p{j % nproc}"].append(c)
    return {p: cs for p, cs in procs.items() if cs}


def foreign(r, ph, tag, p=0.08):
    """Now and then another program holds the database locked for a while."""
    if r.random() >= p:
        return
    c = f"f{tag}"
    ph["clients"][c] = [{"id": f"h{tag}_{k}", "k": "hold", "how": r.choice(["EXCLUSIVE", "EXCLUSIVE", "IMMEDIATE", "shared"]),
                         "secs": r.choice([0.01, 0.5, 3, 6, 9, 14]), "wait": r.choice([0.0, 0.5, 3])} for k in range(r.choice([1, 1, 2, 3]))]
    ph["procs"][f"pf{tag}"] = [c]


def final_phase(spec):
    """A fresh process reads everything back after the last fault."""
    spec["phases"].append({"procs": {"pz": ["z"]}, "clients": {"z": world.verify_ops(spec)}, "quiet_phase": 1,
                           "fixed": 1, "end": "kill"})
    return spec


class StoreProp(Prop):
    real, stubs, assumptions = REAL, STUBS, ASSUME

    def execute(self, spec):
        v, st, rec, hist = world.run(spec)
        vv = None if v is None else {"cls": v.cls, "text": v.text, "sig": v.sig}
        st["nontrivial"] = self.nontrivial(st)
        sample = {"seed": spec["seed"], "ops": [f"{h['task']}/{h['id']} [{h['inv']},{h['ret']}] {h['out'][:60]}" for h in hist[:12]],
                  "faults": {k: f for p in rec["faults"] for k, f in list(p["list"].items())[:6]},
                  "switches": sum(len(p["switches"]) for p in rec["sched"])}
        return vv, st, rec, (hist if spec.get("trace") else sample)

    def nontrivial(self, st):
        return st["switches"] > 0 or sum(st["fired"].values()) > 0

    def journal(self, r):
        return "wal" if r.random() < 0.15 else "delete"


class C01(StoreProp):
    id = "C01"
    rule = ("a run is a random history of inserts, batches, deletes and lookups by 1-4 clients in 1-2 processes over 2-4 machine lives; "
            "each life may end by a process kill or power loss placed inside a file operation or at idle; every life and a final fresh process "
            "read the store; non-trivial = a crash fault fired or writes were pending at a power loss; distinct by switch and fault trace")

    def gen(self, seed, i):
        r = self.rng(seed, i)
        g = Gen(r, ncodes=r.choice([1, 2, 3]), nparams=r.choice([1, 2]), nexp=r.choice([1, 1, 2]))
        mix = {"ins": 5, "bulk": 3, "del": 2, "get": 2, "bget": 1, "cv": 1}
        spec = {"seed": f"C01:{seed}:{i}", "journal": self.journal(r), "phases": []}
        if r.random() < 0.4:
            spec["pre"] = [g.rec() for _ in range(r.randint(1, 4))]
        for p in range(r.choice([1, 2, 2, 3, 4])):
            nc = r.choice([1, 1, 1, 2, 3])
            ph = {"clients": {f"c{p}{j}": g.ops(r.randint(1, 6), mix) for j in range(nc)},
                  "end": r.choice(["power", "kill", "power"]), "crash": r.choice(["power", "power", "kill", "proc"])}
            ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 1, 2]))
            if r.random() < 0.15:
                big = g.wide_batch(r.choice([40, 150]))
                first = next(iter(ph["clients"]))
                ph["clients"][first].append({"id": f"big{p}", "k": "bulk", "recs": big})
            rate = 0.0 if r.random() < 0.15 else 10 ** r.uniform(-3.0, -1.0)
            ph["faults"] = {"mode": "random", "budget": 1 if ph["crash"] != "proc" else 2,
                            "rates": {"crash": rate, "crash_after": rate}}
            if r.random() < 0.2:
                ph["faults"]["budget"] = 3
                ph["faults"]["rates"].update(write=0.01, sync=0.01, delete=0.02, trunc=0.02)
            spec["phases"].append(ph)
        spec["sched"] = {"mode": "random"}
        return final_phase(spec)

    def nontrivial(self, st):
        return any(k.startswith("crash") for k in st["fired"])


class C02(StoreProp):
    id = "C02"
    rule = ("a run is one or more batch inserts (1 to 1600 records, new, existing and repeated keys, sometimes an unencodable record at any place) with concurrent "
            "readers in the same or other processes, under one of: crash or power loss at any file operation, disk errors, full disk, lock conflicts, failed allocation, "
            "asynchronous exceptions at lines; the recorded history plus a fresh reader must be explained by batches taking effect at one instant or never; "
            "non-trivial = a fault fired, a bad record was present or a reader was interleaved with a batch")

    def gen(self, seed, i):
        r = self.rng(seed, i)
        g = Gen(r, ncodes=r.choice([1, 2, 3]), nparams=1, nsizes=2, nmc=r.choice([1, 2]))
        spec = {"seed": f"C02:{seed}:{i}", "journal": self.journal(r), "phases": []}
        if r.random() < 0.6:
            spec["pre"] = [g.rec() for _ in range(r.randint(1, 5))]
        flavour = r.choice(["crash", "crash", "disk", "full", "busy", "line", "bad", "bad", "read", "mixed"])
        ph = {"clients": {}, "end": r.choice(["power", "kill"]), "crash": r.choice(["power", "kill", "proc"])}
        a = ph["clients"]["w"] = []
        for b in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if x < 0.55:
                n = r.choice([2, 3, 4, 5, 8])
            elif x < 0.9:
                n = r.choice([12, 20, 33, 64])
            else:
                n = r.choice([101, 130, 260, 520, 1030, 1600])
            recs = g.wide_batch(n, start=min(g.sizes)) if (n > 8 or r.random() < 0.7) else g.batch(n)
            op = {"id": f"b{b}", "k": "bulk", "recs": recs}
            if flavour in ("bad", "mixed") and r.random() < 0.7:
                j = r.choice([0, n - 1, r.randrange(n)])
                recs[j]["bad"] = r.choice(["text", "none", "params"])
                op["bad"] = 1
            a.append(op)
            if r.random() < 0.5:
                a += g.ops(1, {"ins": 1, "del": 1, "bget": 1})
        # readers watch the first and the last records of the batches
        if flavour in ("read", "crash", "line", "mixed") or r.random() < 0.3:
            for c in range(r.choice([1, 2])):
                ops = ph["clients"][f"r{c}"] = []
                for k in range(r.choice([3, 6, 10])):
                    b = r.choice([o for o in a if o["k"] == "bulk"])
                    good = [x for x in b["recs"] if not x.get("bad")]
                    if not good or r.random() < 0.4:
                        lo = min(x["n"] for x in b["recs"])
                        hi = max(x["n"] for x in b["recs"])
                        ops.append({"id": f"r{c}_{k}", "k": "bget", "codes": sorted({x["c"] for x in b["recs"]}),
                                    "n": (lo + hi) // 2, "err": r.choice([0, 1, hi - lo + 1])})
                    else:
                        x = r.choice([good[0], good[-1], r.choice(good)])
                        ops.append({"id": f"r{c}_{k}", "k": "get", "c": x["c"], "p": x["p"], "n": x["n"], "m": x["m"]})
        ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 2]))
        foreign(r, ph, 0, 0.3 if flavour == "busy" else 0.04)
        total = sum(len(o["recs"]) for o in a if o["k"] == "bulk")
        ids = [o["id"] for o in a if o["k"] == "bulk"]
        rate = 10 ** r.uniform(-2.7, -0.7)
        rates = {"crash": {"crash": rate, "crash_after": rate}, "disk": {k: rate for k in ("read", "write", "sync", "delete", "trunc", "open")},
                 "full": {"write": rate}, "busy": {"lock": rate * 2, "slow": 0.02}, "line": {"line": 10 ** r.uniform(-3.2, -1.0), "native": 0.02},
                 "bad": {}, "read": {}, "mixed": {"write": rate, "lock": rate, "line": 0.002, "crash": rate / 3}}[flavour]
        ph["faults"] = {"mode": "random", "budget": r.choice([1, 1, 2, 4]), "rates": rates, "ops": ids}
        if flavour == "full" and r.random() < 0.5:
            ph["capacity"] = r.choice([16384, 20480, 24576, 32768, 49152])
            ph["faults"]["rates"] = {}
        spec["phases"].append(ph)
        spec["line_faults"] = flavour in ("line", "mixed")
        spec["verify_keys"] = 40
        spec["max_steps"] = 400000 + 2000 * total
        spec["sched"] = {"mode": "random"}
        return final_phase(spec)

    def nontrivial(self, st):
        return sum(st["fired"].values()) > 0 or st["switches"] > 0 or st["ops"].get("bulk.fail", 0) > 0


class C03(StoreProp):
    id = "C03"
    rule = ("a run is a random history of 10-60 operations over a small universe of look-alike keys (several experiments, sizes at range ends, equal Monte Carlo counts), "
            "by one client or two clients taking turns in different processes, over 1-4 lives with clean exits or kills between them, some with transient disk faults; "
            "every result is checked against the reference map; non-trivial = at least one restart, client switch or fault; distinct by workload and traces")

    def gen(self, seed, i):
        r = self.rng(seed, i)
        g = Gen(r, ncodes=r.choice([1, 2, 3, 4]), nparams=r.choice([1, 2, 3]), nsizes=r.choice([1, 2, 3, 4]),
                nmc=r.choice([1, 2, 3]), nexp=r.choice([1, 1, 2, 3]), size_hi=5)
        mix = {"ins": r.choice([2, 4]), "bulk": r.choice([1, 2]), "del": r.choice([1, 2]), "get": 3, "cv": 3, "bget": 3}
        spec = {"seed": f"C03:{seed}:{i}", "journal": self.journal(r), "phases": []}
        if r.random() < 0.5:
            spec["pre"] = [g.rec() for _ in range(r.randint(1, 6))]
        faulty = r.random() < 0.25
        for p in range(r.choice([1, 2, 2, 3, 4])):
            nc = r.choice([1, 1, 2])
            ph = {"clients": {f"c{p}{j}": g.ops(r.randint(4, 18), mix) for j in range(nc)}, "end": r.choice(["kill", "kill", "power"])}
            ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 2]))
            ph["faults"] = {"mode": "random", "budget": 3,
                            "rates": {"read": 0.004, "write": 0.004, "lock": 0.004, "sync": 0.01} if faulty else {}}
            spec["phases"].append(ph)
        if r.random() < 0.1:
            self.crowd(r, g, spec)
        # operations of two clients interleave but rarely overlap: the scheduler switches at operation boundaries too
        spec["sched"] = {"mode": "random", "rates": {"line": r.choice([0.0, 0.05]), "io": r.choice([0.0, 0.02]), "lock": 0.0,
                                                       "native": 0.0, "op": 0.5}}
        return final_phase(spec)

    def crowd(self, r, g, spec):
        """Hundreds of matching records: many codes, or many records of few codes."""
        n = r.choice([40, 70, 130, 260, 520, 1040])
        codes = [f"Z{j:04d}" for j in range(n)] if r.random() < 0.5 else r.sample(CODES, r.choice([1, 2, 5]))
        base = 1000
        width = 0 if len(codes) == n and r.random() < 0.5 else max(3, n // len(codes))
        pre = {}
        for j in range(n):
            g.v += 1
            x = {"c": codes[j] if len(codes) == n else r.choice(codes), "p": r.choice(g.params), "n": base + r.randint(-width, width) if width else base,
                 "m": r.choice(g.mcs) if r.random() < 0.5 else r.randint(1, 50), "e": 1, "v": g.v, "size": 1, "flavour": "plain"}
            pre[x["c"], str(x["p"]), x["n"], x["m"]] = x
        spec["pre"] = list(pre.values())
        ph = spec["phases"][0]
        spec["phases"] = [ph]
        ph["faults"] = {"mode": "random", "budget": 0, "rates": {}}
        first = next(iter(ph["clients"]))
        ops = ph["clients"][first]
        ph["clients"] = {first: ops}
        ph["procs"] = clients(r, [first], 1)
        for j in range(r.choice([2, 4, 6])):
            g.n += 1
            if r.random() < 0.6:
                cs = list(codes) if r.random() < 0.6 else r.sample(codes, r.randint(1, len(codes)))
                r.shuffle(cs)
                o = {"k": "bget", "codes": cs, "n": base + r.choice([0, 0, 1, -5]), "err": r.choice([0, 1, width // 2, width, 2 * width])}
            elif r.random() < 0.7:
                o = {"k": "cv", "c": r.choice(codes), "n": base + r.choice([0, 3, -5]), "err": r.choice([0, 1, width // 2, width, 2 * width])}
            else:
                x = r.choice(spec["pre"])
                o = {"k": r.choice(["del", "get"]), "c": x["c"], "p": x["p"], "n": x["n"], "m": x["m"]}
            ops.insert(r.randrange(len(ops) + 1), dict(o, id=f"o{g.n}"))

    def nontrivial(self, st):
        return True


class C04(StoreProp):
    id = "C04"
    rule = ("a run is 2-4 clients (threads of one process sharing a store object, or separate processes) doing 1-6 operations each on 1-3 keys, under a random schedule "
            "(uniform, priority-based or round-robin with random rates), without faults or with stalls and one client being killed; the history must be linearizable against "
            "the map model, operations may fail only next to an injected fault, and every operation must end in bounded simulated time; non-trivial = at least one context switch inside an operation")

    def gen(self, seed, i):
        r = self.rng(seed, i)
        g = Gen(r, ncodes=r.choice([1, 1, 2]), nparams=1, nsizes=r.choice([1, 1, 2]), nmc=r.choice([1, 1, 2]), nexp=1, size_hi=4)
        mix = {"ins": 4, "bulk": 2, "del": 2, "get": 3, "cv": 1, "bget": 2}
        spec = {"seed": f"C04:{seed}:{i}", "journal": self.journal(r), "phases": []}
        if r.random() < 0.5:
            spec["pre"] = [g.rec() for _ in range(r.randint(1, 3))]
        nc = r.choice([2, 2, 3, 3, 4])
        ph = {"clients": {f"c{j}": g.ops(r.randint(1, 6 if nc < 4 else 4), mix) for j in range(nc)}, "end": "kill", "crash": "proc"}
        if r.random() < 0.06:
            # more threads than pooled connections: the pool's own waiting is exercised
            ph["clients"] = {f"c{j}": g.ops(1, {"ins": 3, "get": 2}) for j in range(17)}
            nc = 1
            ph["procs"] = clients(r, list(ph["clients"]), 1)
        else:
            ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 1, 2, nc]))
        foreign(r, ph, 0, 0.08)
        kind = r.random()
        rates = {}
        if kind < 0.15:
            rates = {"slow": 0.01}
        elif kind < 0.25:
            rates = {"crash": 0.004, "crash_after": 0.004} if nc > 1 else {}
        ph["faults"] = {"mode": "random", "budget": 2, "rates": rates}
        spec["phases"].append(ph)
        spec["sched"] = {"mode": "random"}
        return final_phase(spec)

    def nontrivial(self, st):
        return st["switches"] > 0


class C06(StoreProp):
    id = "C06"
    rule = ("a run is 1-3 clients doing 2-45 operations of which many are hit by disk errors, short writes, full disk, lock errors, failed allocations, unencodable data or asynchronous "
            "exceptions at any line, followed by 6-20 fault-free operations on the same store objects and a fresh reader; failed operations must have all or no effect, rejected ones none, "
            "and nothing may fail once faults stop; non-trivial = at least one operation failed")

    def gen(self, seed, i):
        r = self.rng(seed, i)
        g = Gen(r, ncodes=r.choice([1, 2]), nparams=1, nsizes=1, nmc=2, size_hi=5)
        spec = {"seed": f"C06:{seed}:{i}", "journal": self.journal(r), "phases": []}
        spec["pre"] = [g.rec() for _ in range(r.randint(0, 4))]
        if r.random() < 0.15:
            return self.hammer(r, g, spec)
        many = r.random() < 0.35
        nc = 1 if many else r.choice([1, 1, 2, 3])
        mix = {"ins": 4, "bulk": 3, "del": 2, "get": 2, "cv": 2, "bget": 2}
        flavour = r.choice(["disk", "disk", "line", "line", "bad", "mixed", "full", "native"])
        ph = {"clients": {}, "end": "kill"}
        ids = []
        for c in range(nc):
            ops = g.ops(r.randint(18, 45) if many else r.randint(2, 10), mix)
            for o in ops:
                if flavour in ("bad", "mixed") and r.random() < 0.5:
                    if o["k"] == "ins":
                        o["rec"]["bad"] = r.choice(["text", "none", "params"])
                        o["bad"] = 1
                    elif o["k"] == "bulk" and o["recs"]:
                        r.choice(o["recs"])["bad"] = r.choice(["text", "none", "params"])
                        o["bad"] = 1
            ids += [o["id"] for o in ops]
            tail = g.ops(r.randint(6, 20), mix)
            for o in tail:
                o["quiet"] = 1
            ph["clients"][f"c{c}"] = ops + tail
        ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 1, 2]))
        foreign(r, ph, 0, 0.05)
        rate = 10 ** r.uniform(-2.3, -0.8)
        rates = {"disk": {k: rate for k in ("read", "write", "sync", "delete", "trunc", "open", "access")},
                 "line": {"line": 10 ** r.uniform(-2.5, -0.9)}, "bad": {}, "native": {"native": 0.3},
                 "mixed": {"read": rate, "write": rate, "sync": rate, "delete": rate, "line": 0.01, "lock": rate, "native": 0.03},
                 "full": {"write": rate * 2}}[flavour]
        ph["faults"] = {"mode": "random", "budget": r.choice([1, 3, 10, 1000]), "rates": rates, "ops": ids}
        spec["line_faults"] = flavour in ("line", "mixed")
        spec["phases"].append(ph)
        spec["sched"] = {"mode": "random"}
        return final_phase(spec)

    def hammer(self, r, g, spec):
        """One kind of operation fails again and again in the same way, more often than the pool has connections."""
        k = r.choice(["ins", "bulk", "del", "get", "cv", "bget", "bget"])
        how = r.choice(["read", "read", "lock", "mid", "bad", "line", "write"])
        if how == "bad" and k not in ("ins", "bulk"):
            how = "read"
        if how == "write" and k not in ("ins", "bulk", "del"):
            how = "mid"
        ops = g.ops(r.choice([3, 18, 24, 40]), {k: 1})
        for o in ops:
            if how == "bad" and r.random() < 0.9:
                xs = [o["rec"]] if k == "ins" else o["recs"]
                if xs:
                    r.choice(xs)["bad"] = r.choice(["text", "none", "params"])
                    o["bad"] = 1
        tail = [dict(o, quiet=1) for o in g.ops(r.randint(6, 14), {"ins": 3, "bulk": 2, "del": 1, "get": 2, "cv": 2, "bget": 2}) + g.ops(2, {k: 1})]
        ph = {"clients": {"c0": ops + tail}, "procs": {"p0": ["c0"]}, "end": "kill"}
        rates = {"read": {"read": r.choice([0.3, 1.0])}, "lock": {"lock": r.choice([0.5, 1.0])}, "bad": {}, "line": {"line": 0.05},
                 "mid": {"read": 0.2, "lock": 0.1, "open": 0.3, "access": 0.2}, "write": {"write": 0.3, "sync": 0.3, "delete": 0.5}}[how]
        ph["faults"] = {"mode": "random", "budget": 1000, "rates": rates, "ops": [o["id"] for o in ops]}
        spec["line_faults"] = how == "line"
        spec["phases"].append(ph)
        spec["sched"] = {"mode": "random"}
        return final_phase(spec)

    def nontrivial(self, st):
        return any(k.endswith(".fail") for k in st["ops"])


class C05(StoreProp):
    id = "C05"
    rule = ("a run stores and reads lists of 0 to 20000 floats (NaN, infinities, signed zeros, subnormals, values beyond single precision) from 1-4 clients whose encoding and decoding interleave, "
            "over one or two lives; in two thirds of the runs stored blobs are then damaged (bit flips, zeroed, lost, added or repeated bytes, torn overwrites, edited headers) and a fresh process reads: a damaged record "
            "may fail or still give exactly its values, anything else must give exactly its values; non-trivial = a blob was damaged, a fault fired or clients were switched")

    def gen(self, seed, i):
        r = self.rng(seed, i)
        g = Gen(r, ncodes=r.choice([1, 2]), nparams=1, nsizes=r.choice([1, 2]), nmc=2, nexp=r.choice([1, 2]), size_hi=r.choice([1, 6, 40]), flavour="special")
        mix = {"ins": 4, "bulk": 2, "get": 4, "bget": 2, "cv": 2}
        spec = {"seed": f"C05:{seed}:{i}", "journal": self.journal(r), "phases": []}
        if r.random() < 0.5:
            spec["pre"] = [self.vary(r, g.rec()) for _ in range(r.randint(1, 4))]
        nc = r.choice([1, 2, 2, 3, 4])
        ph = {"clients": {f"c{j}": g.ops(r.randint(1, 6), mix) for j in range(nc)}, "end": "kill", "crash": "proc"}
        for ops in ph["clients"].values():
            for o in ops:
                for x in [o["rec"]] if o["k"] == "ins" else o.get("recs", []):
                    self.vary(r, x)
        ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 1, 2]))
        ph["faults"] = {"mode": "random", "budget": 2, "rates": r.choice([{}, {}, {"native": 0.1}, {"line": 0.01}, {"write": 0.01, "read": 0.01}])}
        spec["line_faults"] = "line" in ph["faults"]["rates"]
        spec["phases"].append(ph)
        if r.random() < 0.67:
            spec["damage"] = {"after": 0, "list": [{"row": r.random(), "other": r.random(), "salt": r.random(), "how": r.choice(world.DAMAGE)}
                                                   for _ in range(r.choice([1, 1, 2, 4]))]}
            p2 = {"clients": {"d": world.verify_ops(spec, "d") + g.ops(r.randint(0, 8), mix)}, "procs": {"pd": ["d"]}, "end": "kill"}
            for o in p2["clients"]["d"]:
                for x in [o["rec"]] if o["k"] == "ins" else o.get("recs", []):
                    self.vary(r, x)
            p2["clients"]["d"] += world.verify_ops({"phases": [ph, p2]}, "y")
            p2["quiet_phase"] = 1
            spec["phases"].append(p2)
            spec["sched"] = {"mode": "random"}
            return spec
        spec["sched"] = {"mode": "random"}
        return final_phase(spec)

    def vary(self, r, x):
        x["flavour"] = r.choice(["special", "special", "special", "plain", "flat", "empty", "zeros", "same", "asc", "desc", "tiny", "ints"])
        if r.random() < 0.08:
            x["size"] = r.choice([20000, 4096, 255, 256, 257, 1000, 1023, 1025, 65535, 65536])
        return x

    def elements(self, spec):
        return super().elements(spec) + [["damage", d["salt"]] for d in spec.get("damage", {}).get("list", [])]

    def drop(self, spec, els):
        s = super().drop(spec, els)
        gone = {e[1] for e in els if e[0] == "damage"}
        if "damage" in s:
            s["damage"]["list"] = [d for d in s["damage"]["list"] if d["salt"] not in gone]
        return s


class C07(StoreProp):
    id = "C07"
    rule = ("a run is 1-5 clients in 1-4 processes opening (safe constructor, constructor plus init, repeated init) and using the same fresh, half-created or populated database at once, over 1-3 lives with crashes, power loss, "
            "disk errors, lock conflicts, full disk or an unusable database (missing directory, not a database file, unknown dialect); initialising must succeed unless a fault struck it, fail only with a connection error, never "
            "alter records, and give a usable store; non-trivial = a fault fired or clients were switched inside an open")

    def gen(self, seed, i):
        r = self.rng(seed, i)
        g = Gen(r, ncodes=r.choice([1, 2]), nparams=1, nsizes=1, nmc=2, size_hi=3)
        spec = {"seed": f"C07:{seed}:{i}", "journal": "delete", "phases": []}
        if r.random() < 0.35:
            spec["pre"] = [g.rec() for _ in range(r.randint(1, 4))]
        spec["junk"] = 1
        n = [0]

        def opn(how=None, bad=0.08):
            n[0] += 1
            o = {"id": f"i{n[0]}", "k": "open", "how": how or r.choice(["safe", "new", "new", "reinit"])}
            if how is None and r.random() < bad and o["how"] != "reinit":
                o["url"] = r.choice(["sqlite:////sim/missing/x.db", "sqlite:////sim/a/junk.db"] + (["nosuch://x", "sqlite+nope:///x"] if o["how"] == "safe" else []))
            return o
        flavour = r.choice(["none", "none", "crash", "crash", "disk", "busy", "full", "slow"])
        rate = 10 ** r.uniform(-2.5, -0.8)
        rates = {"none": {}, "crash": {"crash": rate, "crash_after": rate}, "disk": {k: rate for k in ("read", "write", "sync", "delete", "trunc", "open", "access")},
                 "busy": {"lock": rate * 2}, "full": {"write": rate}, "slow": {"slow": 0.02}}[flavour]
        for p in range(r.choice([1, 1, 2, 3])):
            nc = r.choice([1, 2, 2, 3, 4, 5])
            ph = {"clients": {}, "end": r.choice(["kill", "power"]), "crash": r.choice(["power", "kill", "proc"]), "own_store": 1,
                  "hold": 1 if r.random() < 0.4 else 0}
            for j in range(nc):
                ops = []
                for k in range(r.choice([1, 1, 2, 3])):
                    ops.append(opn())
                    ops += g.ops(r.choice([0, 1, 2]), {"ins": 3, "get": 2, "bulk": 1, "bget": 1})
                if not ph["hold"] and ops[0]["how"] == "reinit":
                    ops[0]["how"] = "safe"
                if ph["hold"] and r.random() < 0.8:
                    ops[0]["how"] = "reinit"
                    ops[0].pop("url", None)
                elif ph["hold"]:
                    ops[0] = opn("safe")
                ph["clients"][f"c{p}{j}"] = ops
            if nc == 1 and r.random() < 0.5:
                # the file disappears (an administrator starts afresh) and the same process opens it again
                for k in range(r.choice([1, 1, 2])):
                    n[0] += 1
                    ops.append({"id": f"w{n[0]}", "k": "wipe"})
                    ops.append(opn(r.choice(["safe", "new", "reinit", "reinit"])))
                    ops += g.ops(r.choice([1, 2, 3]), {"ins": 3, "get": 2, "bulk": 1, "bget": 1})
            ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 2, 3, 4]))
            foreign(r, ph, p, 0.2 if flavour != "busy" else 0.5)
            ph["faults"] = {"mode": "random", "budget": r.choice([1, 2, 6]), "rates": rates}
            if flavour == "full" and r.random() < 0.5:
                ph["capacity"] = r.choice([0, 4096, 8192, 12288])
                ph["faults"]["rates"] = {}
            spec["phases"].append(ph)
        spec["sched"] = {"mode": "random"}
        final_phase(spec)
        z = spec["phases"][-1]
        z["own_store"] = 1
        z["clients"]["z"] = [dict(opn("safe"), quiet=1, fixed=1), dict(opn("new"), quiet=1, fixed=1)] + z["clients"]["z"]
        return spec

    def nontrivial(self, st):
        return st["switches"] > 0 or sum(st["fired"].values()) > 0
