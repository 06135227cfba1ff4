"""The simulated store world: clients in processes on a machine with one database file."""
import gc
import hashlib
import json
import random
import struct

import numpy as np

from sim import kernel, vfs, zygote
from . import lin

DB = "/sim/a/store.db"
JUNK = {"/sim/a/junk.db": b"this is no database file at all. " * 300}
URL = "sqlite:///" + DB          # /sim/... is absolute: four slashes in total


# ---------------------------------------------------------------- values
POOL = [0.0, -0.0, 1e-45, -1e-40, 3.4e38, 1e39, -1e300, float("inf"), float("-inf"), float("nan"), 0.1, 1.0, -1.0, 16777217.0]


def values(vid, size, flavour="plain"):
    """The list of floats that write number `vid` stores (unique per vid)."""
    r = random.Random(f"v{vid}")
    if flavour == "plain":
        return [float(vid) + 0.25] + [round(r.uniform(-5, 5), 3) for _ in range(size - 1)]
    if flavour == "grid":
        return [float(vid) + 0.25] + [r.randrange(-24, 24) / 8 for _ in range(size - 1)]
    if flavour == "flat":
        return [float(vid) + 0.25] * size
    if flavour == "empty":
        return []
    if flavour == "zeros":
        return [r.choice([0.0, 0.0, -0.0]) for _ in range(size)]
    if flavour == "ints":
        return [float(r.choice([vid, r.randrange(-9, 9), r.randrange(1 << 24)])) for _ in range(size)]
    if flavour == "tiny":
        return [r.choice([-1, 1]) * 1e-45 * r.randrange(1, 1 << r.choice([1, 8, 22])) for _ in range(size)]
    if flavour == "same":
        return [r.choice(POOL)] * size
    if flavour in ("asc", "desc"):
        return sorted(values(vid, size, r.choice(["plain", "special", "grid"])), key=lambda x: (x != x, x), reverse=flavour == "desc")
    pool = [0.0, -0.0, 1e-45, -1e-40, 1.17549435e-38, 3.4e38, 1e39, -1e300, float("inf"), float("-inf"),
            float("nan"), 0.1, 1 / 3, 16777217.0, -2.5e-7, 5e-324, 123456789.123]
    return [float(vid) + 0.25] + [r.choice(pool) if r.random() < 0.5 else r.gauss(0, 10 ** r.uniform(-8, 8))
                                  for _ in range(size - 1)]


def token_expected(vals):
    with np.errstate(all="ignore"):
        a = np.asarray(vals, dtype=np.float64).astype(np.float32).astype(np.float64)
    return _token(a)


def _token(a):
    a = np.where(np.isnan(a), np.nan, a)
    first = f"{a[0]:.2f}" if len(a) else ""
    return f"{len(a)}:{first}:{hashlib.blake2b(a.tobytes(), digest_size=6).hexdigest()}"


def token_seen(lst):
    try:
        a = np.asarray([float(x) for x in lst], dtype=np.float64)
    except Exception as e:                   # noqa: BLE001
        return f"unreadable:{type(lst).__name__}:{type(e).__name__}"
    return _token(a)


def pk_of(rec):
    return (rec["e"], rec["c"], json.dumps(rec["p"]), rec["n"], rec["m"])


def q_of(op):
    return (op["c"], json.dumps(op["p"]), op["n"], op["m"])


# ---------------------------------------------------------------- one phase
class Phase:
    def __init__(self, spec, phase_no, image, sched, faults):
        self.spec = spec
        self.no = phase_no
        self.ph = spec["phases"][phase_no]
        self.disk = vfs.Disk(image, capacity=self.ph.get("capacity"))
        vfs.DISKS.clear()
        vfs.DISKS["/sim/a/"] = self.disk
        self.sim = kernel.Sim(f"{spec['seed']}/{phase_no}", sched=sched, faults=faults,
                              max_steps=spec.get("max_steps", 400000))
        self.sim.trace = [] if spec.get("trace") else None
        self.sim.line_faults = bool(spec.get("line_faults"))
        self.sim.crash_handler = self.crash
        self.sim.on_proc_dead.append(vfs.kill_proc)
        self.procs = {}
        self.stores = {}
        self.crash_mode = self.ph.get("crash", "power")
        self.crashed = None
        self.keep = []
        self.opened = set()
        self.excused = set()          # operations hit by a lasting fault that another operation drew

    def crash(self, t, fault, where):
        self.sim.probe("crash@" + where)
        if self.crash_mode == "proc":
            self.crashed = self.crashed or "proc"
            self.sim.kill_proc(t.proc)
        else:
            self.crashed = self.crash_mode
            self.sim.stop("crash")

    def store_for(self, proc):
        if proc not in self.stores:
            p = self.procs[proc] = zygote.import_clone()
            vfs.PROC_HINT = proc
            self.stores[proc] = p.ds.AlchemyLimitDistributionStorage(URL)
            if self.no == 0 and not self.ph.get("no_init"):
                self.stores[proc].init()
            vfs.PROC_HINT = None
        return self.stores[proc]

    def run(self):
        for proc in self.ph["procs"]:
            if self.ph.get("own_store"):
                self.procs[proc] = zygote.import_clone()
                if self.ph.get("hold"):
                    vfs.PROC_HINT = proc
                    self.stores[proc] = self.procs[proc].ds.AlchemyLimitDistributionStorage(URL)
                    vfs.PROC_HINT = None
            else:
                self.store_for(proc)
        if self.no == 0 and self.spec.get("journal") == "wal":
            import sqlite3
            c = sqlite3.connect(DB)
            c.execute("PRAGMA journal_mode=WAL")
            c.close()
        for proc, clients in self.ph["procs"].items():
            for c in clients:
                ops = self.ph["clients"][c]
                self.sim.spawn(c, self.client(c, proc, ops), proc)
        self.sim.run()
        return self

    # -- clients
    def client(self, name, proc, ops):
        def body():
            task = self.sim.current
            store = self.stores.get(proc)
            P = self.procs[proc]
            for op in ops:
                task.nofault = 1 if op.get("quiet") else 0
                rec = self.sim.op_begin(op["id"], op)
                out, store = self.execute(P, proc, store, op)
                self.sim.op_end(rec, out)
        return body

    def execute(self, P, proc, store, op):
        try:
            k = op["k"]
            if k == "open":
                return self.do_open(P, proc, store, op)
            if k == "hold":
                return self.hold_lock(op), store
            if store is None or (self.ph.get("own_store") and kernel.current_task().name not in self.opened):
                return ("skip",), store
            if k == "wipe":
                return self.wipe(proc), store
            return self.do(P, store, op), store
        except Exception as e:               # noqa: BLE001
            if isinstance(e, kernel.HarnessError):
                raise
            out = ("fail", type(e).__name__, str(e)[:300], bool(op.get("bad")))
            e.__traceback__ = None
            del e
        except KeyboardInterrupt as e:
            out = ("fail", "KeyboardInterrupt", str(e)[:100], False)
            e.__traceback__ = None
            del e
        gc.collect()
        return out, store

    def wipe(self, proc):
        """Somebody removes the database file while nobody has it open."""
        for s in self.keep + [x for p, x in self.stores.items() if p == proc]:
            dispose(s)
        for n in list(self.disk.files):
            if n.startswith(DB):
                del self.disk.files[n]
        self.opened.clear()
        return ("ok",)

    def hold_lock(self, op):
        """Another program (a backup, an SQL shell) keeps the database locked for a while."""
        import sqlite3
        sim = kernel.CURRENT
        t = sim.current
        self.excused.add(op["id"])
        t.nofault += 1
        try:
            c = sqlite3.connect(DB, isolation_level=None, timeout=op.get("wait", 0.5))
            try:
                if op["how"] == "shared":
                    c.execute("BEGIN")
                    c.execute("SELECT count(*) FROM sqlite_master").fetchall()
                else:
                    c.execute("BEGIN " + op["how"])
                sim.probe("foreign-lock-held")
                sim.sleep(op["secs"])
                c.rollback()
            finally:
                c.close()
        except sqlite3.Error as e:
            return ("skip", str(e)[:80])
        finally:
            t.nofault -= 1
        return ("skip", "held")

    def do_open(self, P, proc, store, op):
        cls = P.ds.AlchemyLimitDistributionStorage
        try:
            if op["how"] == "safe":
                s = cls.create_safe(op.get("url", URL), "sim")
                self.keep.append(s)
                if s is not None:
                    self.opened.add(kernel.current_task().name)
                return ("ok", "none" if s is None else "store"), (s if s is not None else store)
            if op["how"] == "reinit":
                if store is None:
                    return ("skip",), store
                store.init()
                self.opened.add(kernel.current_task().name)
                return ("ok", "init"), store
            s = cls(op.get("url", URL))
            self.keep.append(s)
            s.init()
            self.opened.add(kernel.current_task().name)
            return ("ok", "store"), s
        except Exception as e:               # noqa: BLE001
            out = ("fail", type(e).__name__, str(e)[:300], isinstance(e, ConnectionError))
            e.__traceback__ = None
            del e
        except KeyboardInterrupt as e:
            out = ("fail", "KeyboardInterrupt", str(e)[:100], True)
            e.__traceback__ = None
            del e
        gc.collect()
        return out, store

    def do(self, P, store, op):
        M = P.model
        k = op["k"]
        if k == "ins":
            m = self.mk(M, op["rec"])
            store.insert_data(m)
            scribble(m)
            return ("ok",)
        if k == "bulk":
            ms = [self.mk(M, r) for r in op["recs"]]
            store.insert_bulk_data(ms)
            for m in ms:
                scribble(m)
            del ms[:]
            return ("ok",)
        if k == "del":
            store.delete_data(M.LimitDistributionQuery(op["c"], list(op["p"]), op["n"], op["m"]))
            return ("ok",)
        if k == "get":
            r = store.get_data(M.LimitDistributionQuery(op["c"], list(op["p"]), op["n"], op["m"]))
            return ("ok", seen(r))
        if k == "cv":
            r = store.get_data_for_cv(M.CriticalValueQuery(op["c"], op["n"], op["err"]))
            return ("ok", seen(r))
        if k == "bget":
            codes = list(op["codes"])
            rs = store.get_bulk_data(codes, op["n"], op["err"])
            out = [seen(r) for r in rs]
            del codes[:]
            return ("ok", out)
        raise kernel.HarnessError("op " + k)

    def mk(self, M, rec):
        v = values(rec["v"], rec.get("size", 3), rec.get("flavour", "plain"))
        bad = rec.get("bad")
        if bad == "text":
            v = v + ["not a number"]
        elif bad == "none":
            v = None
        p = list(rec["p"])
        if bad == "params":
            p = [object()]
        return M.LimitDistributionModel(rec["e"], rec["c"], p, rec["n"], rec["m"], v)


def dispose(s):
    """Close the pooled connections of a store, whatever its attributes are called."""
    from sqlalchemy.engine import Engine
    found = [x for x in vars(s).values() if isinstance(x, Engine)] if s is not None else []
    if not found:
        found = [x for x in gc.get_objects() if isinstance(x, Engine)]
    for e in found:
        e.dispose()


def scribble(m):
    """A caller is free to reuse what it passed in or was given."""
    for a in ("results_statistics", "criterion_parameters"):
        v = getattr(m, a, None)
        if isinstance(v, list):
            v[:] = [-777.0, 1.5]
    for a in ("criterion_code",):
        try:
            setattr(m, a, "scribbled")
        except Exception:                    # noqa: BLE001
            pass


def seen(r):
    if r is None:
        return None
    out = ((r.experiment_id, r.criterion_code, json.dumps(r.criterion_parameters), r.sample_size,
            r.monte_carlo_count), token_seen(r.results_statistics))
    scribble(r)
    return out


# ---------------------------------------------------------------- a whole run
class Violation(Exception):
    def __init__(self, cls, text, sig=None):
        super().__init__(text)
        self.cls, self.text, self.sig = cls, text, sig or cls


class Result:
    """What a run leaves behind (plain data, sent to the parent)."""


def verify_ops(spec, prefix="z"):
    """Read everything back in a fresh process after the last fault."""
    codes, keys, ns = set(), set(), set()
    for r in all_records(spec):
        codes.add(r["c"])
        ns.add(r["n"])
        keys.add((r["c"], json.dumps(r["p"]), r["n"], r["m"]))
    ops = []
    for i, (c, p, n, m) in enumerate(sorted(keys)[:spec.get("verify_keys", 60)]):
        ops.append({"id": f"{prefix}g{i}", "k": "get", "c": c, "p": json.loads(p), "n": n, "m": m, "quiet": 1})
    if ns:
        lo, hi = min(ns), max(ns)
        mid = (lo + hi) // 2
        ops.append({"id": prefix + "b", "k": "bget", "codes": sorted(codes), "n": mid,
                    "err": hi - lo + 1, "quiet": 1})
        for i, n in enumerate(sorted(ns)[:6]):
            ops.append({"id": f"{prefix}bn{i}", "k": "bget", "codes": sorted(codes), "n": n, "err": 0, "quiet": 1})
    return ops


def all_records(spec):
    for r in spec.get("pre", []):
        yield r
    for ph in spec["phases"]:
        for ops in ph["clients"].values():
            for op in ops:
                if op["k"] == "ins":
                    yield op["rec"]
                elif op["k"] == "bulk":
                    yield from op["recs"]
                elif op["k"] == "load" and "remote" in op:
                    yield from op["remote"]


def lin_op(h, base, spec=None):
    """History record -> operation of the linearizability checker."""
    op, out = h["op"], h["out"]
    k = op["k"]
    o = {"id": h["id"], "task": h["task"], "k": k, "inv": base + h["inv"],
         "ret": None if h["ret"] is None else base + h["ret"]}
    st = out[0]
    o["out"] = {"ok": "ok", "pending": "pending", "skip": "none"}.get(st, "fail")
    if st == "fail" and op.get("bad") and out[3]:
        o["out"] = "none"
    if k == "ins":
        o["pk"] = pk_of(op["rec"])
        o["val"] = _tok(op["rec"])
    elif k == "bulk":
        o["recs"] = [(pk_of(r), _tok(r)) for r in op["recs"] if not r.get("bad")]
    elif k in ("del", "get"):
        o["q"] = q_of(op)
    elif k == "cv":
        o.update(code=op["c"], n=op["n"], err=op["err"])
    elif k == "bget":
        o.update(codes=list(op["codes"]), n=op["n"], err=op["err"])
    if k == "load":
        # what the remote handed over may have been stored
        got = set(op.get("_got") or [])
        o["k"], o["out"] = "bulk", "fail" if got else "none"
        o["recs"] = [(pk_of(r), _tok(r)) for r in op["remote"] if r["v"] in got]
    if k == "dec":
        o["k"] = "dec"
        if st == "ok" and spec is not None:
            from . import decide
            o["res"] = decide.lin_dec(spec, op, out)
            o["what"] = str(out[1])
        return o
    if k in lin.READS and st == "ok":
        o["res"] = _untuple(out[1])
    return o


def _untuple(r):
    if r is None:
        return None
    if isinstance(r, list):
        return [(tuple(a), b) for a, b in r]
    return (tuple(r[0]), r[1])


_tokcache = {}


def _tok(rec):
    key = (rec["v"], rec.get("size", 3), rec.get("flavour", "plain"))
    if key not in _tokcache:
        _tokcache[key] = token_expected(values(*key))
    return _tokcache[key]


MAX_OP_TIME = 120.0


def run(spec):
    """Execute a store spec; returns (violation or None, stats)."""
    sched_ph = spec.get("sched", {}).get("phases")
    fault_ph = spec.get("faults", {}).get("phases")
    image = dict(JUNK) if spec.get("junk") else {}
    stats = {"fired": {}, "opps": {}, "steps": 0, "switches": 0, "sim_s": 0.0, "probes": {}, "ops": {}, "kinds": {},
             "vfs": 0}
    rec = {"sched": [], "faults": []}
    history = []
    ops_lin = []
    digests, inter = [], []
    viol = None
    init_state = {}
    if spec.get("pre"):
        image, init_state = prepare(spec)
        if spec.get("junk"):
            image.update(JUNK)
    nph = len(spec["phases"])
    phase_objs = []
    base = 0
    for i in range(nph):
        sc = at(sched_ph, i) if sched_ph is not None else dict(spec.get("sched", {}))
        fs = at(fault_ph, i) if fault_ph is not None else dict(spec["phases"][i].get("faults") or spec.get("faults", {}))
        if spec["phases"][i].get("quiet_phase"):
            fs = {"mode": "explicit", "list": {}}
        cls = Phase
        if spec.get("kind") == "decide":
            from .decide import DecidePhase as cls
        ph = cls(spec, i, image, sc, fs)
        phase_objs.append(ph)
        ph.run()
        sim = ph.sim
        add_stats(stats, sim)
        digests.append(sim.digest.hexdigest())
        inter.append(sim.swdigest.hexdigest())
        rec["sched"].append({"mode": "explicit", "switches": sim.sched.record if sim.sched.mode == "random" else sim.sched.explicit})
        rec["faults"].append({"mode": "explicit", "list": sim.faults.record})
        for h in sim.history:
            history.append((i, h))
            o = lin_op(h, base, spec) if h["op"]["k"] in lin.READS + lin.WRITES or "remote" in h["op"] else None
            if o is not None:
                if o["ret"] is None or (o["out"] == "fail" and spec.get("journal") == "wal"):
                    # a commit that failed after its commit record reached the write-ahead log
                    # is replayed by SQLite's recovery at the next life of the database
                    o["ret"] = base + sim.seq + 1
                ops_lin.append(o)
        for h in sim.history:
            k = h["op"]["k"] + "." + h["out"][0]
            stats["ops"][k] = stats["ops"].get(k, 0) + 1
        base += sim.seq + 10
        v = judge_phase(spec, ph)
        if v is not None:
            viol = v
            break
        end = ph.crashed or spec["phases"][i].get("end", "kill")
        if end == "power":
            image = ph.disk.power_loss(f"{spec['seed']}/{i}")
            if ph.crashed:
                stats["fired"]["crash.power_loss"] = stats["fired"].get("crash.power_loss", 0) + 1
        else:
            image = ph.disk.image()
        if spec.get("damage") and i == spec["damage"]["after"]:
            image, damaged = damage(image, spec["damage"]["list"])
            stats["damaged"] = len(damaged)
            for _, how in damaged:
                stats["fired"]["blob." + how] = stats["fired"].get("blob." + how, 0) + 1
            spec["_damaged"] = {d for d, _ in damaged}
    if viol is None and spec.get("check_lin", True):
        try:
            d = lin.check(ops_lin, init_state)
        except lin.TooHard:
            d = None
            stats["probes"]["lin-budget-exceeded"] = 1
        if d is not None:
            viol = Violation("history", d)
    if viol is None:
        v = integrity(image)
        if v:
            viol = Violation("integrity", v)
    stats["digest"] = hashlib.blake2b("|".join(digests).encode(), digest_size=12).hexdigest()
    stats["inter"] = hashlib.blake2b(("|".join(inter) + json.dumps(rec["faults"], sort_keys=True)).encode(),
                                     digest_size=12).hexdigest()
    stats["trace"] = [x for p in phase_objs for x in (p.sim.trace or [])]
    return viol, stats, rec, [dict(id=h["id"], task=h["task"], inv=h["inv"], ret=h["ret"], out=str(h["out"])[:200],
                                   phase=i) for i, h in history]


def at(recorded, i):
    return recorded[i] if i < len(recorded) else {"mode": "explicit"}


def add_stats(stats, sim):
    stats["steps"] += sim.steps
    stats["switches"] += sim.switches
    stats["sim_s"] += sim.now - sim.t0
    for k, v in sim.faults.fired.items():
        stats["fired"][k] = stats["fired"].get(k, 0) + v
    for k, v in sim.probes.items():
        stats["probes"][k] = stats["probes"].get(k, 0) + v
    for k, v in sim.kinds.items():
        stats["kinds"][k] = stats["kinds"].get(k, 0) + v


def prepare(spec):
    """Fault-free creation of the initial database."""
    vfs.DISKS.clear()
    d = vfs.DISKS["/sim/a/"] = vfs.Disk()
    P = zygote.import_clone()
    s = P.ds.AlchemyLimitDistributionStorage(URL)
    s.init()
    state = {}
    ph = Phase.__new__(Phase)
    if len(spec["pre"]) > 30:
        s.insert_bulk_data([Phase.mk(ph, P.model, r) for r in spec["pre"]])
    for r in spec["pre"]:
        if len(spec["pre"]) <= 30:
            s.insert_data(Phase.mk(ph, P.model, r))
        state[pk_of(r)] = _tok(r)
    dispose(s)
    return d.image(), state


def integrity(image):
    import sqlite3
    if DB not in image:
        return None
    vfs.DISKS.clear()
    vfs.DISKS["/sim/a/"] = vfs.Disk(image)
    try:
        c = sqlite3.connect(DB)
        r = c.execute("PRAGMA integrity_check").fetchall()
        c.close()
    except Exception as e:                   # noqa: BLE001
        return f"database unreadable after the run: {e!r}"
    return None if r == [("ok",)] else f"integrity check: {r}"


def fault_ops(sim):
    """ids of operations in which a fault fired."""
    return {k.split("|", 1)[0] for k in sim.faults.record}


def judge_phase(spec, ph):
    sim = ph.sim
    if sim.native_race:
        return Violation("native-race", "two threads used one native compression context at the same time: " +
                         sim.native_race)
    if sim.stop_reason in ("steps", "deadlock", "time"):
        stuck = [f"{t.name}:{t.opid}:{t.state}" for t in sim.tasks if t.opid != "-"]
        return Violation("stuck", f"no progress ({sim.stop_reason}) after {sim.steps} steps, {sim.now - sim.t0:.1f} "
                         f"simulated seconds; unfinished: {stuck}")
    hist = sim.history
    faulty = fault_ops(sim) | ph.excused
    cap_hit = "disk.capacity" in sim.faults.fired
    fh = [h for h in hist if h["id"] in faulty]
    slow = any(k.split("|")[1] == "slow" for k in sim.faults.record)
    dmg = set(spec.get("_damaged") or ())
    for h in hist:
        if h["ret"] is None:
            continue
        if dmg and h["op"]["k"] in ("ins", "bulk") and h["out"][0] == "ok" and len(ph.ph["clients"]) == 1:
            recs = h["op"]["recs"] if h["op"]["k"] == "bulk" else [h["op"]["rec"]]
            dmg -= {pk_of(x) for x in recs}
        dur = h["t1"] - h["t0"]
        if dur > (MAX_OP_TIME if not slow else 40 * 20 + MAX_OP_TIME):
            return Violation("stuck", f"operation {h['id']} took {dur:.1f} simulated seconds")
        if h["out"][0] != "fail":
            continue
        if h["op"].get("bad") and h["out"][3]:
            continue
        if cap_hit and h["op"]["k"] in lin.WRITES + ("open", "load", "loadb") and not h["op"].get("quiet"):
            continue
        if h["id"] in faulty:
            continue
        if dmg and h["op"]["k"] in lin.READS and (h["op"]["k"] != "get" or any(d[1:] == q_of(h["op"]) for d in dmg)):
            continue
        if h["op"]["k"] == "open" and h["op"].get("url") and h["out"][3]:
            continue
        if not h["op"].get("quiet") and any(
                f["inv"] < h["ret"] and (f["ret"] is None or f["ret"] > h["inv"]) for f in fh):
            continue
        if h["op"].get("quiet") and any(f["inv"] < h["ret"] and (f["ret"] is None or f["ret"] > h["inv"])
                                        for f in fh if f["task"] != h["task"]):
            continue
        what = "after the faults had stopped " if h["op"].get("quiet") and faulty else ""
        return Violation("op-failed", f"operation {h['id']} ({lin.short(lin_op(h, 0)) if h['op']['k'] != 'open' else 'open'}) "
                         f"by {h['task']} failed {what}although no fault was injected into it or anything "
                         f"concurrent with it: {h['out'][1]}: {h['out'][2]}")
    for h in hist:
        if h["op"]["k"] == "open":
            v = judge_open(h, faulty, fh, cap_hit)
            if v:
                return v
    return None


def judge_open(h, faulty, fh, cap_hit):
    op, out = h["op"], h["out"]
    if out[0] in ("pending", "skip"):
        return None
    excused = h["id"] in faulty or cap_hit or any(
        f["inv"] < (h["ret"] or 1 << 60) and (f["ret"] is None or f["ret"] > h["inv"]) for f in fh)
    if op["how"] == "safe":
        if out[0] == "fail":
            return Violation("safe-raised", f"the safe constructor raised {out[1]}: {out[2]} in {h['id']}")
        if op.get("url"):
            if out[1] != "none":
                return Violation("open-bad", f"{h['id']}: a store was returned for an unusable database {op['url']}")
        elif out[1] == "none" and not excused:
            return Violation("open-failed", f"{h['id']} by {h['task']}: the safe constructor gave up on a usable database "
                             "although no fault was injected into it or anything concurrent with it")
        return None
    if out[0] == "fail" and not out[3] and out[1] != "KeyboardInterrupt":
        return Violation("open-error", f"{h['id']}: initialising raised {out[1]} instead of a connection error: {out[2]}")
    if out[0] == "ok" and op.get("url"):
        return Violation("open-bad", f"{h['id']}: initialising an unusable database {op['url']} did not fail")
    return None


def damage(image, todo):
    """Alter stored blobs in place, as decaying or torn media would."""
    import sqlite3
    vfs.DISKS.clear()
    d = vfs.DISKS["/sim/a/"] = vfs.Disk(image)
    c = sqlite3.connect(DB)
    hit = []
    tabs = [r[0] for r in c.execute("select name from sqlite_master where type='table' order by name")]
    cells = []
    for t in tabs:
        cols = [r[1] for r in c.execute(f'pragma table_info("{t}")')]
        for row in c.execute(f'select rowid, {", ".join(chr(34) + x + chr(34) for x in cols)} from "{t}" order by rowid').fetchall():
            for j, x in enumerate(cols):
                if isinstance(row[1 + j], bytes):
                    cells.append((t, x, row[0], dict(zip(cols, row[1:])), row[1 + j]))
    seen_cells = set()
    for how in todo:
        if not cells:
            break
        i = int(how["row"] * len(cells))
        if i in seen_cells:
            continue
        seen_cells.add(i)
        t, x, rid, row, b = cells[i]
        nb = mutate(b, how, cells[int(how["other"] * len(cells))][4])
        if nb == b or any(nb == x[4] for x in cells):
            continue                         # a whole other record is not damage a reader could notice
        c.execute(f'update "{t}" set "{x}"=? where rowid=?', (nb, rid))
        hit.append(((row.get("experiment_id"), row.get("criterion_code"), row.get("criterion_parameters"), row.get("sample_size"),
                     row.get("monte_carlo_count")), how["how"]))
    c.commit()
    c.close()
    return d.image(), hit


DAMAGE = ["flip", "flip", "flip", "flips", "zero", "cut", "grow", "head", "torn", "empty", "dup", "junk"]


def mutate(b, how, other):
    r = random.Random(how["salt"])
    k = how["how"]
    a = bytearray(b)
    n = len(a)
    if n == 0:
        return b"x"
    if k in ("flip", "flips"):
        for _ in range(1 if k == "flip" else r.choice([2, 3, 8, 16])):
            p = r.randrange(n * 8)
            a[p // 8] ^= 1 << (p % 8)
    elif k == "head":
        p = r.randrange(min(n, 8))
        a[p] = (a[p] + r.choice([1, 255, 2, 128])) % 256
    elif k == "zero":
        p = r.randrange(n)
        q = min(n, p + r.choice([1, 4, 512]))
        a[p:q] = bytes(q - p)
    elif k == "cut":
        del a[r.choice([r.randrange(n), n - 1, max(0, n - 4), min(6, n - 1)]):]
    elif k == "grow":
        a += r.choice([b"\0", b"\0" * 4, r.randbytes(8), bytes(a[-8:]), bytes(a)])
    elif k == "torn":
        p = r.randrange(1, n) if n > 1 else 0
        a = a[:p] + bytearray(other[p:])
    elif k == "empty":
        a = bytearray()
    elif k == "dup":
        p = r.randrange(n)
        a = a[:p] + a[max(0, p - 4):]
    elif k == "junk":
        p = r.randrange(n)
        a[p:] = r.randbytes(n - p)
    return bytes(a)
