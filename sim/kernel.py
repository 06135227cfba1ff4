"""Deterministic simulation kernel.

One `Sim` owns every source of nondeterminism of one run: which simulated client
(task) executes next, the clock, every fault, and the random numbers they are
drawn from.  Clients are real threads, but exactly one of them holds the baton at
any time; all others are parked on a private semaphore, and the baton moves only
at yield points (a line of the code under test, a file operation, a lock
operation, a native compress/decompress call, a sleep).  Where it moves is decided
here, from the seed or from a recorded schedule.
"""
import _thread
import collections
import hashlib
import heapq
import random
import sys

CURRENT = None            # the active Sim of this (forked) process
TASKS = {}                # thread ident -> Task

get_ident = _thread.get_ident


class SimStop(BaseException):
    """Raised inside a task to end it when the run is being torn down."""


class HarnessError(Exception):
    """The machinery itself is wrong (never reported as a violation)."""


class Task:
    __slots__ = ("name", "idx", "sem", "state", "wake", "proc", "opid", "opstep", "fn",
                 "prio", "waiting", "inline", "opp", "nofault", "noyield", "exc", "steps", "last_line")

    def __init__(self, name, idx, proc, fn):
        self.name, self.idx, self.proc, self.fn = name, idx, proc, fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "ready"        # ready | run | blocked | sleep | done | dead
        self.wake = 0.0
        self.opid = "-"
        self.opstep = 0
        self.opp = collections.Counter()
        self.prio = 0.0
        self.waiting = None
        self.inline = 0
        self.nofault = 0
        self.noyield = 0
        self.exc = None
        self.steps = 0
        self.last_line = None


class Sched:
    """Decides who runs next.  mode 'random' draws, mode 'explicit' replays a record."""

    def __init__(self, spec, rng):
        self.mode = spec.get("mode", "random")
        self.rng = rng
        self.record = {}
        self.explicit = spec.get("switches", {})
        self.policy = spec.get("policy")
        self.rates = dict(spec.get("rates", {}))
        if self.mode == "random":
            if self.policy is None:
                self.policy = rng.choice(["rand", "rand", "rand", "pct", "pct", "rr"])
            for kind, lo, hi in (("line", -2.6, -0.5), ("io", -2.0, -0.3), ("lock", -1.5, -0.2), ("native", -1.0, -0.1)):
                self.rates.setdefault(kind, 10 ** rng.uniform(lo, hi))
            if spec.get("concurrency") is False:
                self.rates = {k: 0.0 for k in self.rates}


class Sim:
    def __init__(self, seed, sched=None, faults=None, max_steps=400000, max_time=100000.0):
        self.seed = seed
        self.rng = random.Random(f"sim:{seed}")
        self.fault_rng = random.Random(f"fault:{seed}")
        self.sched = Sched(sched or {}, random.Random(f"sched:{seed}"))
        self.faults = Faults(self, faults or {})
        self.now = 1_000_000.0
        self.t0 = self.now
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.tasks = []
        self.current = None
        self.seq = 0                      # global event sequence number for histories
        self.history = []
        self.stop_reason = None
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.digest = hashlib.blake2b(digest_size=16)
        self.swdigest = hashlib.blake2b(digest_size=12)
        self.kinds = collections.Counter()
        self.switches = 0
        self.probes = collections.Counter()
        self.harness_errors = []
        self.line_faults = False
        self.trace = None                 # list when verbose
        self.on_proc_dead = []
        self.native_race = None
        self.crash_handler = None

    # ------------------------------------------------------------------ logging
    def log(self, *a):
        s = "|".join(map(str, a))
        self.digest.update(s.encode("utf8", "replace"))
        if self.trace is not None:
            self.trace.append(f"{self.steps:6d} {self.now - self.t0:10.4f} "
                              f"{self.current.name if self.current else '-':>8} {s}")

    def probe(self, name):
        self.probes[name] += 1

    def next_seq(self):
        self.seq += 1
        return self.seq

    # ------------------------------------------------------------------ tasks
    def spawn(self, name, fn, proc=None):
        t = Task(name, len(self.tasks), proc, fn)
        self.tasks.append(t)
        if self.sched.mode == "random":
            t.prio = self.sched.rng.random()
        return t

    def _thread_main(self, t):
        t.sem.acquire()
        TASKS[get_ident()] = t
        try:
            if self.stop_reason is None and t.state != "dead":
                t.fn()
        except SimStop:
            pass
        except BaseException as e:                     # noqa: BLE001 harness bug
            import traceback
            self.harness_errors.append("task %s: %s" % (t.name, "".join(traceback.format_exception(e))[-3000:]))
        t.state = "done"
        TASKS.pop(get_ident(), None)
        self._leave(t)

    def run(self):
        """Run all spawned tasks to completion.  Called on the controller thread."""
        global CURRENT
        CURRENT = self
        live = [t for t in self.tasks if t.state == "ready"]
        if not live:
            return
        for t in live:
            _thread.start_new_thread(self._thread_main, (t,))
        first = self._pick(None, [t for t in live], "start")
        self._resume(first)
        self.main.acquire()
        self.current = None
        CURRENT = None
        if self.harness_errors:
            raise HarnessError("; ".join(self.harness_errors))

    def add_running(self, t):
        """Start a task while the simulation runs (e.g. a restarted process)."""
        _thread.start_new_thread(self._thread_main, (t,))

    def _resume(self, t):
        t.state = "run"
        self.current = t
        t.sem.release()

    def _leave(self, t):
        """Current task cannot continue (done / dead): hand the baton on or finish."""
        nxt = self._next_runnable(t, "leave")
        if nxt is None:
            self.main.release()
            return
        self._resume(nxt)

    def _next_runnable(self, me, why):
        """Choose among runnable tasks, advancing the clock if all of them sleep."""
        while True:
            if self.stop_reason is not None:
                return None
            for t in self.tasks:
                if t.state == "sleep" and t.wake <= self.now:
                    t.state = "ready"
            ready = [t for t in self.tasks if t.state == "ready"]
            if ready:
                return self._pick(me, ready, why)
            sleepers = [t.wake for t in self.tasks if t.state == "sleep"]
            if sleepers:
                self.now = max(self.now, min(sleepers))
                if self.now - self.t0 > self.max_time:
                    self.stop_reason = "time"
                    return None
                continue
            if any(t.state == "blocked" for t in self.tasks):
                self.stop_reason = "deadlock"
            return None

    def _pick(self, me, ready, why):
        """Non-preemptive choice (the current task blocked, slept or ended)."""
        if len(ready) == 1:
            return ready[0]
        key = self._key(me, "b" if me is not None else "s")
        s = self.sched
        if s.mode == "explicit":
            want = s.explicit.get(key)
            for t in ready:
                if t.name == want:
                    return t
            return min(ready, key=lambda t: t.idx)
        if s.policy == "pct":
            c = max(ready, key=lambda t: (t.prio, -t.idx))
        else:
            c = ready[int(s.rng.random() * len(ready))]
        dflt = min(ready, key=lambda t: t.idx)
        if c is not dflt:
            s.record[key] = c.name
        return c

    @staticmethod
    def _key(t, kind):
        if t is None:
            return "start"
        return f"{t.name}/{t.opid}:{t.opstep}{kind}"

    # ------------------------------------------------------------------ yielding
    def point(self, kind, cost=1e-5, tag=""):
        """A yield point of the running task."""
        t = self.current
        self.steps += 1
        t.steps += 1
        t.opstep += 1
        self.now += cost
        if self.steps >= self.max_steps:
            self.stop_reason = self.stop_reason or "steps"
            self._die(t)
        if t.noyield:
            return
        s = self.sched
        target = None
        if s.mode == "explicit":
            want = s.explicit.get(self._key(t, "p"))
            if want is not None:
                for o in self.tasks:
                    if o.name == want and (o.state == "ready" or (o.state == "sleep" and o.wake <= self.now)):
                        target = o
        else:
            rate = s.rates.get(kind, 0.0)
            if rate and s.rng.random() < rate:
                others = [o for o in self.tasks if o is not t and
                          (o.state == "ready" or (o.state == "sleep" and o.wake <= self.now))]
                if others:
                    if s.policy == "pct":
                        t.prio = min(o.prio for o in self.tasks) - 1.0
                        target = max(others, key=lambda o: (o.prio, -o.idx))
                    elif s.policy == "rr":
                        later = [o for o in others if o.idx > t.idx]
                        target = (later or others)[0]
                    else:
                        target = others[int(s.rng.random() * len(others))]
                    s.record[self._key(t, "p")] = target.name
        if target is not None:
            self._switch(t, target, kind, tag)

    def _switch(self, t, target, kind, tag=""):
        self.switches += 1
        self.swdigest.update(f"{t.name}>{target.name}@{t.opid}.{kind}.{tag};".encode())
        self.log("switch", t.name, target.name, t.opid, t.opstep, kind)
        t.state = "ready"
        self._resume(target)
        self._park(t)

    def _park(self, t):
        t.sem.acquire()
        if self.stop_reason is not None or t.state == "dead":
            self._die(t)

    def _die(self, t):
        """Never return to the task's code: unwinding would run code that the
        crash / stop is meant to prevent.  Park forever; the process exits soon."""
        if self.current is t:
            t.state = "dead"
            self._leave(t)
        blk = _thread.allocate_lock()
        blk.acquire()
        blk.acquire()

    def sleep(self, secs):
        t = self.current
        t.steps += 1
        t.opstep += 1
        self.steps += 1
        if self.steps >= self.max_steps:
            self.stop_reason = self.stop_reason or "steps"
            self._die(t)
        t.state = "sleep"
        t.wake = self.now + max(0.0, secs)
        self.kinds["sleep"] += 1
        nxt = self._next_runnable(t, "sleep")
        if nxt is t:
            t.state = "run"
            return
        if nxt is None:
            self._die(t)
        self._resume(nxt)
        self._park(t)

    def block(self, waiting, timeout=None):
        """Block the running task until `wakeup` (or the timeout). True if woken."""
        t = self.current
        t.steps += 1
        t.opstep += 1
        self.steps += 1
        self.kinds["block"] += 1
        if timeout is None:
            t.state = "blocked"
        else:
            t.state = "sleep"
            t.wake = self.now + timeout
        t.waiting = waiting
        nxt = self._next_runnable(t, "block")
        if nxt is t:
            t.state = "run"
        elif nxt is None:
            self._die(t)
        else:
            self._resume(nxt)
            self._park(t)
        woken = t.waiting is None
        t.waiting = None
        return woken

    def wakeup(self, t):
        t.waiting = None
        if t.state in ("blocked", "sleep"):
            t.state = "ready"

    # ------------------------------------------------------------------ crashing
    def kill_proc(self, proc, include_current=True):
        """kill -9 of one simulated process: its tasks never run again."""
        self.log("kill", proc)
        me = self.current
        for t in self.tasks:
            if t.proc == proc and t.state != "done":
                if t is me:
                    continue
                t.state = "dead"
        for cb in self.on_proc_dead:
            cb(proc)
        if me is not None and me.proc == proc and include_current:
            self._die(me)

    def crash_now(self, t, fault, where):
        """A crash fault fired in task t (scenario decides what crashes)."""
        self.crash_handler(t, fault, where)

    def stop(self, reason):
        """End the whole phase now (power loss)."""
        self.log("stop", reason)
        self.stop_reason = reason
        self._die(self.current)

    # ------------------------------------------------------------------ ops
    def op_begin(self, opid, info):
        t = self.current
        t.opid, t.opstep = opid, 0
        t.opp.clear()
        self.point("op", 1e-4)
        rec = {"id": opid, "task": t.name, "proc": t.proc, "op": info, "inv": self.next_seq(),
               "ret": None, "t0": self.now, "t1": None, "out": ("pending",)}
        self.history.append(rec)
        self.log("inv", opid, rec["inv"])
        return rec

    def op_end(self, rec, out):
        rec["out"] = out
        rec["ret"] = self.next_seq()
        rec["t1"] = self.now
        self.log("ret", rec["id"], rec["ret"], out)
        t = self.current
        t.opid, t.opstep = "-", 0


class Faults:
    """Draws or replays faults.

    spec (random):   {"mode":"random","rates":{cat: rate},"budget":n,"ops":[ids] or None}
    spec (explicit): {"mode":"explicit","list":{key: fault}}
    An opportunity is identified by  op id | category | running number within the op.
    """

    def __init__(self, sim, spec):
        self.sim = sim
        self.mode = spec.get("mode", "random")
        self.rates = spec.get("rates", {})
        self.budget = spec.get("budget", 10 ** 9)
        self.ops = set(spec["ops"]) if spec.get("ops") is not None else None
        self.explicit = spec.get("list", {})
        self.record = {}
        self.fired = collections.Counter()
        self.opportunities = collections.Counter()
        self.enabled = True

    def draw(self, cat, kinds):
        """Return one of `kinds` (name or (name, weight)) to inject now, or None."""
        t = self.sim.current
        if t is None or t.nofault or not self.enabled:
            return None
        n = t.opp[cat]
        t.opp[cat] = n + 1
        self.opportunities[cat] += 1
        key = f"{t.opid}|{cat}|{n}"
        if self.mode == "explicit":
            f = self.explicit.get(key)
            if f is None:
                return None
        else:
            rate = self.rates.get(cat)
            if not rate or self.budget <= 0 or (self.ops is not None and t.opid not in self.ops):
                return None
            r = self.sim.fault_rng
            if r.random() >= rate:
                return None
            f = {"kind": r.choice(kinds), "arg": round(r.random(), 6)}
            self.budget -= 1
        self.record[key] = f
        self.fired[f"{cat}.{f['kind']}"] += 1
        self.sim.log("fault", key, f["kind"])
        return f


def current_task():
    """The simulated task executing on this thread, if any."""
    s = CURRENT
    if s is None:
        return None
    return TASKS.get(get_ident())
