"""C08-C10: synchronising a local store with a remote one over a simulated network."""
import dataclasses
import hashlib
import json
import random

from sim import kernel, vfs, zygote
from . import lin, store, world
from .base import Prop
from .store import ASSUME, REAL, STUBS, CODES, PARAMS, clients
from .world import Violation, pk_of

RDB = "/sim/r/remote.db"
RURL = "sqlite:///" + RDB
WRITES = ("insert_data", "insert_bulk_data", "delete_data", "init")


def plain(o, model):
    """The same object as an instance of another process's class."""
    if dataclasses.is_dataclass(o) and hasattr(model, type(o).__name__):
        return getattr(model, type(o).__name__)(**{f.name: getattr(o, f.name) for f in dataclasses.fields(o)})
    return o


class Net:
    """The network between the client machine and the remote storage server."""

    KINDS = ["lost_request", "lost_request", "lost_reply", "duplicate", "delay", "delay", "server_error", "partition", "refused"]

    def __init__(self, ph):
        self.ph = ph
        self.partition_until = -1.0
        self.log = []                 # (op id, seq, method, codes, outcome, returned records)

    def proxy(self, P):
        """An object with the storage interface of process P that talks to the server."""
        net = self
        iface = P.model.ILimitDistributionStorage
        ns = {}
        for name in dir(P.ds.AlchemyLimitDistributionStorage):
            if name.startswith("_") or not callable(getattr(P.ds.AlchemyLimitDistributionStorage, name)) or name == "create_safe":
                continue

            def call(self, *a, _name=name, **k):
                return net.call(P, _name, a, k)
            ns[name] = call
        return type("RemoteStorage", (iface,), ns)()

    def call(self, P, name, a, k):
        sim, t = kernel.CURRENT, kernel.CURRENT.current
        codes = []
        for x in list(a) + list(k.values()):
            if hasattr(x, "criterion_code"):
                codes.append(x.criterion_code)
            elif isinstance(x, (list, tuple, set, frozenset)):
                codes += [getattr(y, "criterion_code", y) for y in x]
        ent = {"op": t.opid, "seq": sim.next_seq(), "m": name, "codes": [c for c in codes if isinstance(c, str)], "out": "?", "recs": []}
        self.log.append(ent)
        if self.ph.ph.get("gone"):
            ent["out"] = "gone"
            self.ph.excused.add(t.opid)
            self.fail("refused", 0.5)
        sim.point("io", 5e-4, "net")
        f = sim.faults.draw("net", self.KINDS)
        if sim.now < self.partition_until and not t.nofault:
            self.ph.excused.add(t.opid)
            ent["out"] = "partition"
            sim.probe("call-in-partition")
            self.fail("timeout", min(30.0, self.partition_until - sim.now + 5))
        kind = f and f["kind"]
        if kind == "partition":
            self.partition_until = sim.now + 1 + 300 * f["arg"] ** 2
            ent["out"] = kind
            self.fail("timeout", 30.0)
        if kind in ("lost_request", "refused"):
            ent["out"] = kind
            self.fail("timeout" if kind == "lost_request" else kind, 30.0 if kind == "lost_request" else 0.01)
        if kind == "delay":
            sim.sleep(60 * f["arg"] ** 2)
        if kind == "server_error":
            ent["out"] = kind
            self.fail("server", 0.01)
        r = self.serve(P, name, a, k)
        if kind == "duplicate":
            r = self.serve(P, name, a, k)
        if kind == "lost_reply":
            ent["out"] = kind
            self.fail("timeout", 30.0)
        sim.point("io", 5e-4, "net")
        if not t.nofault:
            c = sim.faults.draw("crash", ["kill"])
            if c:
                sim.crash_now(t, c, "net")
        ent["out"] = "ok"
        for m in r if isinstance(r, list) else [r]:
            if hasattr(m, "results_statistics"):
                ent["recs"].append([[m.experiment_id, m.criterion_code, json.dumps(m.criterion_parameters), m.sample_size, m.monte_carlo_count],
                                    world.token_seen(m.results_statistics)])
        return r

    def serve(self, P, name, a, k):
        """The request executes in the server process (on its own disk)."""
        sim, t = kernel.CURRENT, kernel.CURRENT.current
        S = self.ph.procs["srv"]
        proc, nf = t.proc, t.nofault
        t.proc = "srv"
        if not self.ph.ph.get("remote_faults"):
            t.nofault = 1
        try:
            r = getattr(self.ph.stores["srv"], name)(*[plain(x, S.model) for x in a], **{n: plain(x, S.model) for n, x in k.items()})
        finally:
            t.proc, t.nofault = proc, nf
            if proc in self.ph.dead:
                t.proc = "gone"
                sim._die(t)
        return [plain(x, P.model) for x in r] if isinstance(r, list) else plain(r, P.model)

    def fail(self, how, secs):
        from sqlalchemy.exc import OperationalError
        sim = kernel.CURRENT
        sim.sleep(secs)
        n = len(self.log) % 3
        if how == "timeout":
            raise (TimeoutError("simulated: no answer from the remote storage") if n == 0 else
                   OperationalError("SELECT", {}, Exception("simulated: server closed the connection")))
        if how == "server":
            raise OperationalError("SELECT", {}, Exception("simulated: internal server error"))
        raise ConnectionError("simulated: connection refused")


class SyncPhase(world.Phase):
    def __init__(self, spec, no, image, rimage, sched, faults, shared):
        super().__init__(spec, no, image, sched, faults)
        self.shared = shared
        self.rdisk = vfs.DISKS["/sim/r/"] = vfs.Disk(rimage)
        self.net = Net(self)
        self.dead = set()
        self.sim.on_proc_dead.append(self.dead.add)
        self.loaders = {}
        self.cfg = self.ph.get("remote", {})

    def run(self):
        S = self.procs["srv"] = self.shared.setdefault("srv", None) or zygote.import_clone()
        self.shared["srv"] = S
        vfs.PROC_HINT = "srv"
        self.stores["srv"] = S.ds.AlchemyLimitDistributionStorage(RURL)
        vfs.PROC_HINT = None
        return super().run()

    def do(self, P, store, op):
        k = op["k"]
        if k == "rpub":
            t = kernel.CURRENT.current
            proc, t.proc, t.nofault = t.proc, "srv", 1
            try:
                self.stores["srv"].insert_data(self.mk(self.procs["srv"].model, op["rec"]))
            finally:
                t.proc, t.nofault = proc, 0
                if proc in self.dead:
                    t.proc = "gone"
                    kernel.CURRENT._die(t)
            return ("ok",)
        if k in ("load", "loadb"):
            name = kernel.CURRENT.current.name
            if self.ph.get("shared_loader"):
                name = kernel.CURRENT.current.proc
            ld = self.loaders.get(name)
            if ld is None:
                remote = None if self.cfg.get(name) == "none" else self.net.proxy(P)
                ld = self.loaders[name] = P.loader.CriticalValueLoader(store, remote)
            args = [op["c"] if k == "load" else list(op["codes"]), op["n"]]
            if op["err"] or not op.get("dflt"):
                args.append(op["err"])
            if k == "load":
                r = ld.load(*args)
                return ("ok", r if isinstance(r, bool) else bool(r))
            r = ld.load_bulk(*args)
            if args[0] != op["codes"]:
                return ("ok", {"mutated": args[0]})
            return ("ok", {"req": r.requested_count, "old": r.already_cached_count, "new": r.newly_cached_count,
                           "nf": list(r.not_found_codes)})
        return super().do(P, store, op)


def setup(url_db, recs, P):
    d = vfs.DISKS["/sim/r/" if url_db == RURL else "/sim/a/"] = vfs.Disk()
    s = P.ds.AlchemyLimitDistributionStorage(url_db)
    s.init()
    ph = world.Phase.__new__(world.Phase)
    if len(recs) > 20:
        s.insert_bulk_data([world.Phase.mk(ph, P.model, r) for r in recs])
    else:
        for r in recs:
            s.insert_data(world.Phase.mk(ph, P.model, r))
    world.dispose(s)
    return d.image()


def snapshot(image, rimage, spec, P):
    """Exact contents of both stores, read by a fresh process outside the simulation."""
    vfs.DISKS.clear()
    vfs.DISKS["/sim/a/"] = vfs.Disk(image)
    vfs.DISKS["/sim/r/"] = vfs.Disk(rimage)
    keys = {}
    for r in universe(spec):
        keys[(r["c"], json.dumps(r["p"]), r["n"], r["m"])] = r
    out = []
    import sqlite3
    for url, path in ((world.URL, world.DB), (RURL, RDB)):
        s = P.ds.AlchemyLimitDistributionStorage(url)
        st = {}
        for (c, p, n, m) in keys:
            r = s.get_data(P.model.LimitDistributionQuery(c, json.loads(p), n, m))
            if r is not None:
                st[(r.experiment_id, r.criterion_code, json.dumps(r.criterion_parameters), r.sample_size, r.monte_carlo_count)] = \
                    world.token_seen(r.results_statistics)
        world.dispose(s)
        c = sqlite3.connect(path)
        rows = sum(c.execute(f'select count(*) from "{t[0]}"').fetchone()[0] for t in
                   c.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%'").fetchall())
        c.close()
        out.append((st, rows))
    return out


def universe(spec):
    yield from spec["local"]
    yield from spec["remote"]
    for ph in spec["phases"]:
        for ops in ph["clients"].values():
            for o in ops:
                if "rec" in o:
                    yield o["rec"]


def tok(r):
    return world._tok(r)


def matches(pk, code, n, err):
    return pk[1] == code and abs(pk[3] - n) <= err


def run(spec, judges):
    stats = {"fired": {}, "opps": {}, "steps": 0, "switches": 0, "sim_s": 0.0, "probes": {}, "ops": {}, "kinds": {}}
    rec = {"sched": [], "faults": []}
    vfs.DISKS.clear()
    shared = {"reader": zygote.import_clone()}      # the server and the reader live through the run
    image = setup(world.URL, spec["local"], shared["reader"])
    rimage = setup(RURL, spec["remote"], shared["reader"])
    L = {pk_of(r): tok(r) for r in spec["local"]}
    R = {pk_of(r): tok(r) for r in spec["remote"]}
    ever = {pk: {v} for pk, v in R.items()}
    hist_all, digests, inter, traces = [], [], [], []
    viol = None
    prev = None
    for i, phs in enumerate(spec["phases"]):
        sp, fp = spec.get("sched", {}).get("phases"), spec.get("faults", {}).get("phases")
        sc = world.at(sp, i) if sp is not None else dict(spec.get("sched", {}))
        fs = world.at(fp, i) if fp is not None else dict(phs.get("faults") or {})
        if phs.get("quiet_phase"):
            fs = {"mode": "explicit", "list": {}}
        ph = SyncPhase(spec, i, image, rimage, sc, fs, shared)
        ph.run()
        sim = ph.sim
        world.add_stats(stats, sim)
        digests.append(sim.digest.hexdigest())
        inter.append(sim.swdigest.hexdigest())
        traces += sim.trace or []
        rec["sched"].append({"mode": "explicit", "switches": sim.sched.record if sim.sched.mode == "random" else sim.sched.explicit})
        rec["faults"].append({"mode": "explicit", "list": sim.faults.record})
        for h in sim.history:
            hist_all.append((i, h))
            k = h["op"]["k"] + "." + h["out"][0]
            stats["ops"][k] = stats["ops"].get(k, 0) + 1
        end = ph.crashed or phs.get("end", "kill")
        image = ph.disk.power_loss(f"{spec['seed']}/{i}") if end == "power" else ph.disk.image()
        rimage = ph.rdisk.image()
        v = world.judge_phase(spec, ph)
        if v is not None:
            viol = v if v.cls in judges or v.cls == "native-race" else None
            if viol is None:
                stats["probes"]["other-property-failed"] = 1
            break
        try:
            (L1, lrows), (R1, rrows) = snapshot(image, rimage, spec, shared["reader"])
        except Exception as e:               # noqa: BLE001
            if "only-adds" in judges:
                viol = Violation("only-adds", f"a store is unreadable after phase {i}: {e!r}")
            break
        for h in sim.history:
            if h["op"]["k"] == "rpub":
                pk = pk_of(h["op"]["rec"])
                ever.setdefault(pk, set()).add(tok(h["op"]["rec"]))
        ctx = dict(spec=spec, i=i, ph=ph, L0=L, L1=L1, R0=R, R1=R1, ever=ever, lrows=lrows, rrows=rrows, prev=prev, stats=stats)
        for name, fn in (("truth", truth), ("only-adds", only_adds), ("converge", converge)):
            if name in judges:
                d = fn(**ctx)
                if d:
                    viol = Violation(name, f"phase {i}: {d}")
                    break
        if viol:
            break
        prev = dict(L0=L, L1=L1, ph=ph)
        L, R = L1, R1
    stats["digest"] = hashlib.blake2b("|".join(digests).encode(), digest_size=12).hexdigest()
    stats["inter"] = hashlib.blake2b(("|".join(inter) + json.dumps(rec["faults"], sort_keys=True)).encode(), digest_size=12).hexdigest()
    stats["trace"] = traces
    return viol, stats, rec, [dict(id=h["id"], task=h["task"], inv=h["inv"], ret=h["ret"], out=str(h["out"])[:200], phase=i) for i, h in hist_all]


# ------------------------------------------------------------------ timeline helpers
class Timeline:
    """What is certainly / possibly present in a store at an event time of a phase."""

    def __init__(self, ph, L0, R0):
        self.ph = ph
        h = ph.sim.history
        self.L0, self.R0 = L0, R0
        self.lins = [x for x in h if x["op"]["k"] == "ins"]
        self.pubs = [x for x in h if x["op"]["k"] == "rpub"]
        self.dels = [x for x in h if x["op"]["k"] == "del" and x["out"][0] != "skip"]
        self.loads = [x for x in h if x["op"]["k"] in ("load", "loadb")]
        self.seen = [x for x in h if x["op"]["k"] == "bget" and x["out"][0] == "ok"]

    def kept(self, pk, e, b):
        """No deletion may have removed pk between events e and b."""
        return not any(world.q_of(x["op"]) == tuple(pk)[1:] and x["inv"] < b and (x["ret"] is None or x["ret"] > e) for x in self.dels)

    def local_sure(self, t, c, n, err, b=None):
        """At t, and until b, the local store certainly had a match."""
        b = t if b is None else b
        if any(matches(pk, c, n, err) and self.kept(pk, -1, b) for pk in self.L0):
            return True
        if any(x["out"][0] == "ok" and x["ret"] < t and matches(pk_of(x["op"]["rec"]), c, n, err) and self.kept(pk_of(x["op"]["rec"]), x["inv"], b)
               for x in self.lins):
            return True
        return any(x["ret"] < t and any(matches(pk, c, n, err) and self.kept(pk, x["inv"], b) for pk, _ in x["out"][1]) for x in self.seen)

    def local_maybe(self, t, c, n, err, me=None):
        if any(matches(pk, c, n, err) for pk in self.L0):
            return True
        if any(x["inv"] < t and any(matches(pk, c, n, err) for pk, _ in x["out"][1]) for x in self.seen):
            return True
        if any(x["inv"] < t and matches(pk_of(x["op"]["rec"]), c, n, err) for x in self.lins):
            return True
        for x in self.loads:
            if x is not me and x["inv"] < t and c in codes_of(x["op"]):
                return True
        return False

    def remote_sure(self, t, c, n, err):
        return any(matches(pk, c, n, err) for pk in self.R0) or any(
            x["out"][0] == "ok" and x["ret"] < t and matches(pk_of(x["op"]["rec"]), c, n, err) for x in self.pubs)

    def remote_maybe(self, t, c, n, err):
        return any(matches(pk, c, n, err) for pk in self.R0) or any(
            x["inv"] < t and matches(pk_of(x["op"]["rec"]), c, n, err) for x in self.pubs)


def codes_of(op):
    return [op["c"]] if op["k"] == "load" else op["codes"]


def followup(ph, h):
    """The read that its client made right after operation h."""
    for x in ph.sim.history:
        if x["op"].get("after") == h["id"] and x["task"] == h["task"] and x["out"][0] == "ok":
            if any(d["op"]["k"] == "del" and d["op"]["c"] in codes_of(h["op"]) and d["inv"] < x["ret"] and (d["ret"] is None or d["ret"] > h["inv"])
                   for d in ph.sim.history):
                return None
            return [pk for pk, _ in x["out"][1]]
    return None


def truth(ph, L0, R0, **kw):
    T = Timeline(ph, L0, R0)
    faulty = world.fault_ops(ph.sim) | ph.excused
    fh = [h for h in ph.sim.history if h["id"] in faulty]
    cap = "disk.capacity" in ph.sim.faults.fired
    for h in T.loads:
        if h["out"][0] != "ok":
            continue
        op, a, b = h["op"], h["inv"], h["ret"]
        n, err = op["n"], op["err"]
        none = ph.cfg.get(h["task"]) == "none"
        now = followup(ph, h)
        if op["k"] == "load":
            c = op["c"]
            if h["out"][1]:
                if now is not None and not any(matches(pk, c, n, err) for pk in now):
                    return f"{h['id']} by {h['task']} reported that {c!r} n={n}+-{err} is loaded, but the local store has no such distribution"
            else:
                if T.local_sure(a, c, n, err, b):
                    return f"{h['id']} by {h['task']} reported {c!r} n={n}+-{err} as not found although the local store held it all along"
                if not none and T.remote_sure(a, c, n, err):
                    return f"{h['id']} by {h['task']} reported {c!r} n={n}+-{err} as not found although the remote store held it all along"
            continue
        res = h["out"][1]
        if "mutated" in res:
            return f"{h['id']}: the caller's list of codes was changed to {res['mutated']}"
        who = f"{h['id']} by {h['task']} bulk load of {op['codes']} n={n}+-{err} reported {res}"
        if res["req"] != len(op["codes"]):
            return who + f": requested_count is not {len(op['codes'])}"
        nf = res["nf"]
        if len(set(nf)) != len(nf) or not set(nf) <= set(op["codes"]):
            return who + ": codes reported as not found are repeated or were not requested"
        if min(res["old"], res["new"]) < 0:
            return who + ": negative count"
        for c in nf:
            if T.local_sure(a, c, n, err, b):
                return who + f": {c!r} was in the local store all along"
            if not none and T.remote_sure(a, c, n, err):
                return who + f": {c!r} was in the remote store all along"
        lo = sum(T.local_sure(a, c, n, err, b) for c in op["codes"])
        hi = sum(T.local_maybe(b, c, n, err, h) for c in op["codes"])
        if not lo <= res["old"] <= hi:
            return who + f": between {lo} and {hi} of the codes were cached before"
        hi = sum((not none) and T.remote_maybe(b, c, n, err) for c in op["codes"] if c not in nf)
        if res["new"] > hi:
            return who + f": the remote store can have had only {hi} of the codes"
        total = res["old"] + res["new"] + len(nf)
        excused = cap or any(f["inv"] < h["ret"] and (f["ret"] is None or f["ret"] > h["inv"]) for f in fh)
        if total > len(op["codes"]) or (total < len(op["codes"]) and not excused):
            return who + f": {total} codes accounted for, {len(op['codes'])} requested"
        if now is not None:
            have = sum(any(matches(pk, c, n, err) for pk in now) for c in op["codes"])
            if have < res["old"] + res["new"]:
                return who + f": but only {have} of them are in the local store"
            for c in op["codes"]:
                if total == len(op["codes"]) and c not in nf and not any(matches(pk, c, n, err) for pk in now):
                    return who + f": {c!r} is counted as cached but is not in the local store"
    return None


def only_adds(spec, ph, L0, L1, R0, R1, ever, lrows, rrows, **kw):
    T = Timeline(ph, L0, R0)
    def maygo(pk):
        return any(world.q_of(x["op"]) == tuple(pk)[1:] for x in T.dels)
    for pk, v in L0.items():
        if pk not in L1:
            if maygo(pk):
                continue
            return f"record {pk} was in the local store before the synchronisation and is gone"
        if L1[pk] != v and not maygo(pk):
            return f"record {pk} of the local store changed from {v} to {L1[pk]}"
    mine = {pk_of(x["op"]["rec"]): (tok(x["op"]["rec"]), x["out"][0]) for x in T.lins}
    for pk, (v, out) in mine.items():
        if out == "ok" and L1.get(pk) != v and not maygo(pk):
            return f"record {pk} stored by a local client is {L1.get(pk)} instead of {v}"
    sent = {}
    for e in ph.net.log:
        if e["out"] == "ok":
            for pk, v in e["recs"]:
                sent.setdefault(tuple(pk), set()).add(v)
    for pk, v in L1.items():
        if L0.get(pk) == v or (pk in mine and mine[pk][0] == v):
            continue
        if v not in ever.get(pk, ()):
            return f"the local store gained {pk}={v}, which the remote store never held (there: {sorted(ever.get(pk, ()))})"
        if v not in sent.get(pk, ()):
            return f"the local store gained {pk}={v}, which the remote store did not send"
    if lrows != len(L1):
        return f"the local store has {lrows} rows, of which {len(L1)} are accounted for"
    for e in ph.net.log:
        if e["m"] in WRITES:
            return f"{e['op']} called {e['m']} on the remote store"
    exp = dict(R0)
    amb = set()
    for x in T.pubs:
        if x["out"][0] == "ok":
            exp[pk_of(x["op"]["rec"])] = tok(x["op"]["rec"])
        else:
            amb.add(pk_of(x["op"]["rec"]))
        if any(y is not x and pk_of(y["op"]["rec"]) == pk_of(x["op"]["rec"]) and y["inv"] < (x["ret"] or 1 << 60) and x["inv"] < (y["ret"] or 1 << 60)
               for y in T.pubs):
            amb.add(pk_of(x["op"]["rec"]))          # published by two at once: either may have come last
    for pk in set(exp) | set(R1):
        if pk not in amb and exp.get(pk) != R1.get(pk):
            return f"the remote store's record {pk} is {R1.get(pk)} instead of {exp.get(pk)}"
    if rrows != len(R1):
        return f"the remote store has {rrows} rows, of which {len(R1)} are accounted for"
    byop = {h["id"]: h for h in T.loads}
    for e in ph.net.log:
        h = byop.get(e["op"])
        if h is None:
            continue
        for c in e["codes"]:
            if T.local_sure(h["inv"], c, h["op"]["n"], h["op"]["err"], h["ret"] or 1 << 60):
                return f"{e['op']} asked the remote store for {c!r} n={h['op']['n']}+-{h['op']['err']}, which was cached locally before"
    for h in T.loads:
        if h["op"]["k"] != "loadb":
            continue
        F = [set(tuple(pk) for pk, _ in e["recs"]) for e in ph.net.log if e["op"] == h["id"] and e["out"] == "ok" and len(e["recs"]) > 1]
        for f in F:
            rest = [tuple(pk) for e in ph.net.log if e["op"] != h["id"] for pk, _ in e["recs"]]
            if f & set(rest) or f & set(L0) or f & set(mine) or any(maygo(pk) for pk in f):
                continue
            got = f & set(L1)
            if got and got != f:
                return f"{h['id']} fetched {len(f)} records in one bulk load, but only {len(got)} of them were added: a bulk load must add all or nothing"
    return None


def converge(spec, i, ph, L0, L1, R0, prev, **kw):
    kind = ph.ph.get("conv")
    if not kind:
        return live(ph, L0, R0)
    local = dict(L0)
    for h in ph.sim.history:
        op = h["op"]
        if op["k"] == "del":
            local = {pk: v for pk, v in local.items() if tuple(pk)[1:] != world.q_of(op)}
        if op["k"] not in ("load", "loadb"):
            continue
        n, err = op["n"], op["err"]
        if h["out"][0] != "ok":
            if kind == "gone" and any(not any(matches(pk, c, n, err) for pk in local) for c in codes_of(op)):
                continue
            return f"{h['id']} ({op['k']} of {codes_of(op)} n={n}+-{err}) failed although nothing is wrong: {h['out']}"
        inloc = [c for c in codes_of(op) if any(matches(pk, c, n, err) for pk in local)]
        reach = kind != "gone"
        inrem = [c for c in codes_of(op) if c not in inloc and reach and any(matches(pk, c, n, err) for pk in R0)]
        asked = [c for e in ph.net.log if e["op"] == h["id"] for c in e["codes"]]
        who = f"{h['id']}: {op['k']} of {codes_of(op)} n={n}+-{err}"
        if any(c in inloc for c in asked):
            return who + f" asked the remote for {[c for c in asked if c in inloc]}, which is cached"
        if op["k"] == "load":
            if h["out"][1] != bool(inloc or inrem):
                return who + f" answered {h['out'][1]}; cached: {inloc}, at the remote: {inrem}"
        else:
            r = h["out"][1]
            want = {"req": len(op["codes"]), "old": len(inloc), "new": len(inrem), "nf": sorted(set(op["codes"]) - set(inloc) - set(inrem))}
            if {**r, "nf": sorted(r.get("nf", []))} != want:
                return who + f" reported {r} instead of {want}"
        now = followup(ph, h)
        if now is None:
            continue
        for c in inloc + inrem:
            if not any(matches(pk, c, n, err) for pk in now):
                return who + f": {c!r} is not available locally afterwards"
        if len(inloc) == len(codes_of(op)) and not inrem:
            pass
        for pk in now:
            local.setdefault(tuple(pk), None)
    if kind in ("again", "gone") and L1 != L0:
        return f"repeating the synchronisation changed the local store: {sorted(set(L1) ^ set(L0))[:4]}"
    return None


def live(ph, L0, R0):
    """The same client goes on with the same loader after its faults have stopped."""
    T = Timeline(ph, L0, R0)
    byid = {h["id"]: h for h in ph.sim.history}
    faulty = world.fault_ops(ph.sim) | ph.excused
    for h in ph.sim.history:
        op = h["op"]
        if not op.get("live") or h["out"][0] != "ok":
            continue
        if any(f["id"] in faulty and f["task"] != h["task"] and f["inv"] < h["ret"] and (f["ret"] is None or f["ret"] > h["inv"]) for f in ph.sim.history):
            continue
        pre = byid.get(op["pre"])
        if pre is None or pre["out"][0] != "ok":
            continue
        n, err, codes = op["n"], op["err"], codes_of(op)
        inloc = [c for c in codes if any(matches(pk, c, n, err) for pk, _ in pre["out"][1])]
        reach = ph.cfg.get(h["task"]) != "none"
        inrem = [c for c in codes if c not in inloc and reach and T.remote_sure(h["inv"], c, n, err)]
        if len(inrem) != sum(c not in inloc and reach and T.remote_maybe(h["ret"], c, n, err) for c in codes):
            continue
        asked = [c for e in ph.net.log if e["op"] == h["id"] for c in e["codes"]]
        who = f"{h['id']}: {op['k']} of {codes} n={n}+-{err} by {h['task']}, without any fault,"
        if any(c in inloc for c in asked):
            return who + f" asked the remote for {[c for c in asked if c in inloc]}, which is cached"
        if op["k"] == "load":
            if h["out"][1] != bool(inloc or inrem):
                return who + f" answered {h['out'][1]}; cached: {inloc}, at the remote: {inrem}"
        else:
            want = {"req": len(codes), "old": len(inloc), "new": len(inrem), "nf": sorted(set(codes) - set(inloc) - set(inrem))}
            if {**h["out"][1], "nf": sorted(h["out"][1].get("nf", []))} != want:
                return who + f" reported {h['out'][1]} instead of {want}"
        now = followup(ph, h)
        for c in inloc + inrem if now is not None else ():
            if not any(matches(pk, c, n, err) for pk in now):
                return who + f": {c!r} is not available locally afterwards"
    return None


# ------------------------------------------------------------------ workloads
class SyncProp(Prop):
    real = REAL + ["CriticalValueLoader unmodified", "the remote storage: the same real storage code on the disk of a second simulated machine"]
    stubs = STUBS + ["network between loader and remote storage (requests and replies lost, duplicated, delayed, refused, partitioned; server errors)"]
    assumptions = ASSUME + ["the remote storage is reached through one object with the storage interface; a network failure appears as an exception from it",
                            "distributions are published but not withdrawn at the remote store during a run", "requested codes are distinct"]
    judges = ()
    conv = False

    def execute(self, spec):
        v, st, rec, hist = run(spec, self.judges)
        vv = None if v is None else {"cls": v.cls, "text": v.text, "sig": v.sig}
        st["nontrivial"] = st["switches"] > 0 or sum(st["fired"].values()) > 0
        sample = {"seed": spec["seed"], "ops": [f"{h['task']}/{h['id']} {h['out'][:70]}" for h in hist[:12]],
                  "faults": {k: f for p in rec["faults"] for k, f in list(p["list"].items())[:6]}}
        return vv, st, rec, (hist if spec.get("trace") else sample)

    def gen(self, seed, i):
        r = self.rng(seed, i)
        ncodes = r.choice([1, 2, 3, 4, 6])
        codes = r.sample(CODES, ncodes)
        many = r.random() < 0.08
        if many:
            codes = [f"Z{j:03d}" for j in range(r.choice([12, 25, 60, 130]))]
        base = r.choice([10, 50])
        sizes = r.sample(range(base - 3, base + 4), r.choice([1, 2, 3]))
        errs = r.choice([[0], [0, 1], [0, 1, 2, 3, 5], [2, 5]])
        params = r.sample(PARAMS, r.choice([1, 2]))
        mcs = [10, 100, 1000]
        ctr = {"v": 0, "n": 0}

        def mkrec(e, cs=codes):
            ctr["v"] += 1
            return {"e": e, "c": r.choice(cs), "p": r.choice(params), "n": r.choice(sizes), "m": r.choice(mcs), "v": ctr["v"],
                    "size": r.choice([1, 2, 3, 5, 5, 40, 400]), "flavour": r.choice(["plain", "plain", "flat", "special"])}

        def uniq(recs):
            # one record per key: experiments of the remote get distinct Monte Carlo counts from local ones
            out, seen = [], set()
            for x in recs:
                k = (x["c"], json.dumps(x["p"]), x["n"], x["m"])
                if k not in seen:
                    seen.add(k)
                    out.append(x)
            return out
        local = [mkrec(7) for _ in range(r.choice([0, 0, 1, 2, 4]) if not many else r.choice([0, len(codes) // 3, len(codes)]))]
        for x in local:
            x["m"] += 3                     # never the key of a remote record
        remote = [mkrec(r.choice([1, 2])) for _ in range(r.choice([0, 1, 3, 6, 10]) if not many else 2 * len(codes))]
        if many:
            for x in local + remote:
                x["size"] = min(x["size"], 3)
        spec = {"seed": f"{self.id}:{seed}:{i}", "local": uniq(local), "remote": uniq(remote), "phases": []}
        used = {(x["c"], json.dumps(x["p"]), x["n"], x["m"]) for x in spec["local"] + spec["remote"]}

        def dele():
            x = r.choice(spec["local"] + spec["remote"])
            ctr["n"] += 1
            return {"id": f"x{ctr['n']}", "k": "del", "c": x["c"], "p": x["p"], "n": x["n"], "m": x["m"]}

        def publish():
            """A record that the remote store may take without disturbing the keys of others."""
            rec = mkrec(r.choice([1, 2]))
            key = (rec["c"], json.dumps(rec["p"]), rec["n"], rec["m"])
            old = [x for x in spec["remote"] if (x["c"], json.dumps(x["p"]), x["n"], x["m"]) == key]
            if old:
                rec["e"] = old[0]["e"]
            elif key in used:
                return None
            used.add(key)
            ctr["n"] += 1
            return {"id": f"u{ctr['n']}", "k": "rpub", "rec": rec}

        def tail(ops):
            """Fault-free operations of the same client, mostly repeating what it did before."""
            qs = [(o["codes"] if "codes" in o else [o["c"]], o["n"], o["err"]) for o in ops if o["k"] in ("load", "loadb")]
            qs.append((codes, r.choice(sizes), r.choice(errs)))
            out = []
            for _ in range(r.choice([2, 3, 5])):
                x = r.random()
                o = publish() if x < 0.25 else dele() if x < 0.4 and spec["local"] + spec["remote"] else None
                if o:
                    out.append(dict(o, quiet=1))
                cs, n, err = r.choice(qs)
                if not cs or r.random() < 0.3:
                    cs = r.sample(codes, r.randint(1, len(codes)))
                single = r.random() < 0.45
                cs = [r.choice(cs)] if single else list(cs)
                ctr["n"] += 1
                oid = f"l{ctr['n']}"
                q = {"codes": cs, "n": n, "err": err, "quiet": 1}
                out.append(dict(q, id=oid + "p", k="bget"))
                out.append(dict(q, id=oid, k="load", c=cs[0], dflt=1, live=1, pre=oid + "p") if single else
                           dict(q, id=oid, k="loadb", dflt=1, live=1, pre=oid + "p"))
                out.append(dict(q, id=oid + "c", k="bget", after=oid))
            return out

        def op(task):
            ctr["n"] += 1
            oid = f"s{ctr['n']}"
            x = r.random()
            n, err = r.choice(sizes) + r.choice([0, 0, 0, 1, -1, 2]), r.choice(errs)
            pool = codes + (["not-anywhere"] if r.random() < 0.2 else [])
            if x < 0.3:
                o = {"id": oid, "k": "load", "c": r.choice(pool), "n": n, "err": err, "dflt": 1}
                cs = [o["c"]]
            elif x < 0.85:
                cs = r.sample(pool, r.randint(len(pool) // 2 if many else 1, len(pool)))
                if r.random() < 0.03:
                    cs = []
                o = {"id": oid, "k": "loadb", "codes": cs, "n": n, "err": err, "dflt": 1}
            elif x < 0.93 and spec["local"] + spec["remote"]:
                return [dele()]
            else:
                rec = mkrec(7)
                rec["m"] += 3 + ctr["n"]
                return [{"id": oid, "k": "ins", "rec": rec}]
            return [o, {"id": oid + "c", "k": "bget", "codes": cs, "n": n, "err": err, "quiet": 1, "after": oid}]

        flavour = r.choice(["none", "net", "net", "net", "disk", "busy", "full", "crash", "crash", "line", "mixed", "native"])
        rate = 10 ** r.uniform(-2.2, -0.8)
        rates = {"none": {}, "net": {"net": r.choice([0.1, 0.3, 0.7])}, "disk": {k: rate for k in ("read", "write", "sync", "delete", "trunc", "open")},
                 "busy": {"lock": rate * 2}, "full": {"write": rate}, "crash": {"crash": rate, "crash_after": rate},
                 "line": {"line": 10 ** r.uniform(-2.5, -1.2)}, "native": {"native": 0.2},
                 "mixed": {"net": 0.15, "write": rate / 2, "lock": rate / 2, "crash": rate / 5}}[flavour]
        spec["line_faults"] = flavour == "line"
        for p in range(r.choice([1, 1, 2, 3])):
            nc = r.choice([1, 1, 2, 3])
            ph = {"clients": {}, "end": r.choice(["kill", "power"]), "crash": r.choice(["power", "kill", "proc"]), "remote": {}}
            for j in range(nc):
                c = f"c{p}{j}"
                ph["clients"][c] = [o for _ in range(r.randint(1, 4)) for o in op(c)]
                if r.random() < 0.08:
                    ph["remote"][c] = "none"
            ph["procs"] = clients(r, list(ph["clients"]), r.choice([1, 1, 2]))
            if r.random() < 0.3:
                pub = f"pub{p}"
                ph["clients"][pub] = [o for o in (publish() for _ in range(r.randint(1, 4))) if o]
                ph["procs"][f"ppub{p}"] = [pub]
            ph["faults"] = {"mode": "random", "budget": r.choice([1, 2, 5, 20]), "rates": rates}
            if flavour == "disk" and r.random() < 0.3:
                ph["remote_faults"] = 1
            if flavour == "full" and r.random() < 0.5:
                ph["capacity"] = r.choice([12288, 16384, 20480])
                ph["faults"]["rates"] = {}
            elif nc == 1 and r.random() < 0.6:
                c = f"c{p}0"
                ph["clients"][c] += tail(ph["clients"][c])
                if len(spec["phases"]) and r.random() < 0.3:
                    ph["faults"]["rates"] = {}
            if nc > 1 and not ph["remote"] and r.random() < 0.4:
                ph["shared_loader"] = 1
            store.foreign(r, ph, p, 0.3 if flavour == "busy" else 0.04)
            spec["phases"].append(ph)
        # faults have stopped: synchronise, repeat, lose the remote
        n, err = r.choice(sizes), r.choice(errs)
        cs = list(codes) + (["not-anywhere"] if r.random() < 0.3 else [])
        r.shuffle(cs)
        for kind in ("sync", "again", "again", "gone") if self.conv or r.random() < 0.1 else ():
            ops = []
            if (kind == "sync" and r.random() < 0.3) or (kind == "again" and r.random() < 0.3) or kind == "gone":
                for j, c in enumerate(cs):
                    ops += [{"id": f"{kind}{len(spec['phases'])}l{j}", "k": "load", "c": c, "n": n, "err": err, "dflt": 1},
                            {"id": f"{kind}{len(spec['phases'])}l{j}c", "k": "bget", "codes": [c], "n": n, "err": err, "quiet": 1,
                             "after": f"{kind}{len(spec['phases'])}l{j}"}]
            if not ops or kind == "gone" or r.random() < 0.5:
                oid = f"{kind}{len(spec['phases'])}b"
                ops += [{"id": oid, "k": "loadb", "codes": list(cs), "n": n, "err": err, "dflt": 1},
                        {"id": oid + "c", "k": "bget", "codes": list(cs), "n": n, "err": err, "quiet": 1, "after": oid}]
            if kind == "sync" and r.random() < 0.3 and spec["local"] + spec["remote"]:
                ops.insert(0, dele())
            for o in ops:
                o["fixed"] = 1
            ph = {"clients": {"z": ops}, "procs": {"pz": ["z"]}, "quiet_phase": 1, "conv": kind, "end": r.choice(["kill", "power"]), "remote": {}, "fixed": 1}
            if kind == "gone":
                if r.random() < 0.5:
                    ph["remote"]["z"] = "none"
                else:
                    ph["gone"] = 1
            spec["phases"].append(ph)
        spec["sched"] = {"mode": "random"}
        return spec

    def elements(self, spec):
        return super().elements(spec) + [["remote", r["v"]] for r in spec["remote"]] + [["local", r["v"]] for r in spec["local"]]

    def drop(self, spec, els):
        s = super().drop(spec, els)
        for w in ("remote", "local"):
            gone = {e[1] for e in els if e[0] == w}
            s[w] = [r for r in s[w] if r["v"] not in gone]
        return s


RULE = ("a run is 1-3 lives of 1-3 loader clients (single and bulk loads, local inserts, remote publications) in 1-2 processes sharing one local store, against a remote store on another machine, under lost, "
        "duplicated, delayed or refused requests, lost replies, partitions, server errors, local disk errors, full disk, lock conflicts, interruptions at lines, crashes and power loss; then a fault-free "
        "synchronisation, two repetitions and the loss of the remote; ")


class C08(SyncProp):
    id = "C08"
    judges = ("truth", "stuck")
    rule = RULE + "every report is compared with what both stores certainly or possibly held during the call; non-trivial = a fault fired or clients were switched"


class C09(SyncProp):
    id = "C09"
    judges = ("only-adds", "stuck")
    rule = RULE + "the exact contents of both stores after every life and the log of remote calls are checked; non-trivial = a fault fired or clients were switched"


class C10(SyncProp):
    id = "C10"
    conv = True
    judges = ("converge", "op-failed", "stuck")
    rule = RULE + "the fault-free part must reach and keep the expected contents and reports exactly; non-trivial = a fault fired or clients were switched"
