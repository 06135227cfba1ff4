"""Seeded search over simulated runs: workers, minimisation, replay, evidence."""
import collections
import ctypes
import json
import os
import re
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
_now = time.monotonic


_libc = ctypes.CDLL(None)


def die_with_parent():
    """A forked child is killed when the process that forked it ends."""
    _libc.prctl(1, 9, 0, 0, 0)


def run_forked(fn, spec, timeout):
    """Run fn(spec) in a forked child of this (single-threaded) process.

    Returns ('ok', value) | ('error', text) | ('timeout', None) | ('died', signal)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        die_with_parent()
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(spec))
            except BaseException:                      # noqa: BLE001
                out = ("error", traceback.format_exc()[-4000:])
            data = json.dumps(out).encode()
            data = struct.pack("<Q", len(data)) + data
            while data:
                data = data[os.write(w, data):]
        except BaseException:                          # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = _now() + timeout
    status = None
    try:
        while True:
            left = end - _now()
            if left <= 0:
                status = ("timeout", None)
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if len(buf) >= 8 and len(buf) - 8 >= struct.unpack("<Q", buf[:8])[0]:
                break
    finally:
        os.close(r)
    if len(buf) >= 8 and len(buf) - 8 >= struct.unpack("<Q", buf[:8])[0]:
        os.waitpid(pid, 0)
        return tuple(json.loads(buf[8:]))
    if status is not None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return status
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ("died", os.WTERMSIG(st))
    return ("died", -os.WEXITSTATUS(st))


def worker(prop, indices, wfd, deadline, timeout, seed):
    f = os.fdopen(wfd, "w", buffering=1)
    for i in indices:
        if _now() > deadline:
            break
        spec = None
        try:
            spec = prop.gen(seed, i)
            res = run_forked(prop.execute, spec, timeout)
        except BaseException:                          # noqa: BLE001
            res = ("error", traceback.format_exc()[-3000:])
        if res[0] != "ok":
            res = (res[0], res[1], spec)
        f.write(json.dumps([i, res]) + "\n")
    f.close()
    os._exit(0)


class Batch:
    """Aggregates what the runs of one check did."""

    def __init__(self):
        self.runs = 0
        self.nontrivial = set()
        self.inter = set()
        self.fired = collections.Counter()
        self.ops = collections.Counter()
        self.kinds = collections.Counter()
        self.probes = collections.Counter()
        self.steps = self.switches = 0
        self.sim_s = 0.0
        self.samples = []
        self.violations = []
        self.errors = []
        self.known = collections.Counter()
        self.hung = []
        self.extra = {}

    def add(self, i, st, sample=None):
        self.runs += 1
        self.steps += st.get("steps", 0)
        self.switches += st.get("switches", 0)
        self.sim_s += st.get("sim_s", 0.0)
        for a in ("fired", "ops", "kinds", "probes"):
            getattr(self, a).update(st.get(a) or {})
        if st.get("inter"):
            self.inter.add(st["inter"])
            if st.get("nontrivial", st.get("switches", 0) > 0 or sum((st.get("fired") or {}).values()) > 0):
                self.nontrivial.add(st["inter"])
        if sample and len(self.samples) < 3:
            self.samples.append(sample)


def search(prop, seed, workers, wall, max_runs, timeout, log=print):
    t0 = _now()
    deadline = t0 + wall
    b = Batch()
    pipes = {}
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            die_with_parent()
            os.close(r)
            for p in pipes.values():
                os.close(p[0])
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            worker(prop, range(w, max_runs, workers), wr, deadline, timeout, seed)
        os.close(wr)
        pipes[pid] = (r, [b""])
    stop = False
    while pipes:
        rds = {p[0]: pid for pid, p in pipes.items()}
        ready, _, _ = select.select(list(rds), [], [], 1.0)
        for fd in ready:
            pid = rds[fd]
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                os.close(fd)
                os.waitpid(pid, 0)
                del pipes[pid]
                continue
            acc = pipes[pid][1]
            acc[0] += chunk
            *lines, acc[0] = acc[0].split(b"\n")
            for ln in lines:
                i, res = json.loads(ln)
                handle(prop, b, i, res)
                if b.violations or len(b.errors) > 3:
                    stop = True
        if stop or _now() > deadline + timeout + 20:
            if not stop:
                b.errors.append("workers did not stop in time")
            for pid, (fd, _) in pipes.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
            break
    b.wall = _now() - t0
    return b


def handle(prop, b, i, res):
    if res[0] == "ok":
        v, st, rec, sample = res[1]
        b.add(i, st, sample)
        if v is not None:
            if prop.known(v):
                b.known[v["sig"]] += 1
                return
            b.violations.append({"index": i, "violation": v, "rec": rec})
    elif res[0] == "died" and res[1] in (4, 6, 7, 8, 11):
        # the code under test took the interpreter down with it
        v = {"cls": "process-death", "text": f"the process died with status {res[1]}", "sig": "process-death"}
        b.violations.append({"index": i, "violation": v, "rec": None})
    elif res[0] == "timeout" and len(b.hung) < 2:
        b.hung.append(i)
    elif res[0] == "error" and in_repo(res[1]):
        b.violations.append({"index": i, "violation": raised(res[1]), "rec": None})
    else:
        b.errors.append(f"run {i}: {res[0]}: {res[1]}")


def in_repo(text):
    """Was the last frame of this traceback one of the code under test?"""
    from . import seams
    files = re.findall(r'^  File "([^"]+)"', text or "", re.M)
    return bool(files) and files[-1].startswith(seams.REPO_SRC) and "HarnessError" not in text.splitlines()[-1]


def raised(text):
    return {"cls": "raised", "text": "the code under test raised while the run was being set up or judged: " + text.strip().splitlines()[-1][:300] + "\n" + text[-1500:],
            "sig": "raised"}


# ---------------------------------------------------------------- minimisation
def same(v, w):
    return v is not None and w is not None and v["cls"] == w["cls"]


def execute(prop, spec):
    return prop.execute(prop.gen(*spec["regen"]) if "regen" in spec else spec)


def try_spec(prop, spec, timeout):
    r = run_forked(lambda s: execute(prop, s), spec, timeout)
    if r[0] == "ok":
        return r[1][0], r[1][2]
    if r[0] == "died" and r[1] in (4, 6, 7, 8, 11):
        return {"cls": "process-death", "text": f"status {r[1]}", "sig": "process-death"}, None
    if r[0] == "timeout":
        return hang(timeout), None
    if r[0] == "error" and in_repo(r[1]):
        return raised(r[1]), None
    return None, None


def hang(timeout):
    return {"cls": "hang", "text": f"the run did not end within {timeout} s although the simulator was not asked to let anything else run", "sig": "hang"}


def minimise(prop, spec, viol, wall, timeout, workers):
    end = _now() + wall
    els = [] if "regen" in spec else prop.elements(spec)
    n = 2
    tried = 0
    while els and _now() < end:
        size = max(1, len(els) // n)
        chunks = [els[k:k + size] for k in range(0, len(els), size)]
        progressed = False
        # test removals, a few at a time in parallel
        for g in range(0, len(chunks), workers):
            if _now() > end:
                break
            group = chunks[g:g + workers]
            cands = [prop.drop(spec, c) for c in group]
            outs = parallel(prop, cands, timeout)
            tried += len(cands)
            hit = None
            for c, cand, (v, rec) in zip(group, cands, outs):
                if same(viol, v):
                    hit = (c, cand, v)
                    break
            if hit:
                spec, viol = hit[1], hit[2]
                gone = {json.dumps(x) for x in hit[0]}
                els = [e for e in prop.elements(spec) if json.dumps(e) not in gone]
                progressed = True
                break
        if not progressed:
            if size == 1:
                break
            n = min(n * 2, len(els))
        else:
            n = max(n - 1, 2)
    return spec, viol, tried


def parallel(prop, cands, timeout):
    kids = []
    for c in cands:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            die_with_parent()
            os.close(r)
            try:
                out = json.dumps(try_spec(prop, c, timeout)).encode()
            except BaseException:                      # noqa: BLE001
                out = b"[null, null]"
            with os.fdopen(w, "wb") as f:
                f.write(out)
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    outs = []
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        outs.append(tuple(json.loads(data)) if data else (None, None))
    return outs


# ---------------------------------------------------------------- check entry
def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "known"]


def check(prop, tier, seed, workers=None, wall=None, max_runs=None):
    t0 = _now()
    workers = workers or min(8, os.cpu_count() or 1)
    cfg = prop.budget(tier)
    wall = wall or cfg["wall"]
    max_runs = max_runs or cfg["runs"]
    timeout = cfg.get("timeout", 60)
    print(f"property {prop.id}: tier={tier} VERIF_SEED={seed} workers={workers} runs<={max_runs} wall<={wall}s", flush=True)
    kf = known_findings(prop.id)
    prop.known_list = kf
    b = search(prop, seed, workers, wall, max_runs, timeout)
    replay = None
    minfo = None
    for i in b.hung:
        # was it the machine or the code? once more, alone
        v, _ = try_spec(prop, prop.gen(seed, i), timeout)
        if v is not None and v["cls"] == "hang":
            b.violations.append({"index": i, "violation": v, "rec": None})
            break
        b.probes["slow-run"] += 1
    if b.violations:
        b.violations.sort(key=lambda v: v["index"])
        first = b.violations[0]
        viol = first["violation"]
        try:
            spec = prop.gen(seed, first["index"])
        except Exception:                              # noqa: BLE001  the code under test raises while the run is drawn
            spec = {"regen": [seed, first["index"]]}
        print(f"run {first['index']} violates: [{viol['cls']}] {viol['text'][:1500]}", flush=True)
        exp = prop.explicit(spec, first["rec"]) if first["rec"] is not None else spec
        if viol["cls"] == "hang":
            timeout = 10
        v2, _ = try_spec(prop, exp, timeout)
        if not same(viol, v2):
            v3, _ = try_spec(prop, spec, timeout)
            if not same(viol, v3):
                b.errors.insert(0, f"violation of run {first['index']} did not reproduce: {viol} / {v2} / {v3}")
                v2 = None
            else:
                v2 = v3
            exp = spec
        if v2 is not None:
            b.errors.clear()
            small, v4, tried = minimise(prop, exp, viol, cfg.get("min_wall", 60), timeout, workers)
            v5, _ = try_spec(prop, small, timeout)
            if not same(viol, v5):
                small, v5 = exp, viol
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            replay = os.path.join(VERIF, "replays", f"{prop.id}-{seed}-{first['index']}.json")
            with open(replay, "w") as f:
                json.dump({"property": prop.id, "verif_seed": seed, "run": first["index"], "violation": v5,
                           "spec": small}, f, indent=1)
            count = [0 if "regen" in x else len(prop.elements(x)) for x in (exp, small)]
            minfo = {"elements_before": count[0], "elements_after": count[1],
                     "candidates_tried": tried}
            print(f"minimised from {minfo['elements_before']} to {minfo['elements_after']} elements "
                  f"({tried} candidates): [{v5['cls']}] {v5['text'][:2500]}", flush=True)
    wall_s = _now() - t0
    evidence(prop, tier, seed, b, wall_s, minfo)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop.id} {k['what']}")
    if b.errors:
        for e in b.errors[:5]:
            print("HARNESS-ERROR:", e)
        return 2
    if b.runs == 0:
        print("HARNESS-ERROR: no run completed")
        return 2
    if replay:
        print(f"VIOLATION property={prop.id} replay={replay}")
        return 1
    print(f"held on {b.runs} runs ({len(b.nontrivial)} distinct non-trivial), {b.steps} steps, "
          f"{sum(b.fired.values())} faults, {b.switches} switches, {b.sim_s:.0f} simulated s, {wall_s:.1f} s wall")
    return 0


def evidence(prop, tier, seed, b, wall_s, minfo):
    sw = getattr(b, "wall", wall_s) or 1e-9
    cov = {
        "evaluations": b.runs,
        "distinct_nontrivial": len(b.nontrivial),
        "rule": prop.rule,
        "samples": b.samples[:3],
        "simulated_runs_per_hour": round(b.runs / sw * 3600),
        "simulated_seconds": round(b.sim_s, 3),
        "scheduler_steps": b.steps,
        "context_switches": b.switches,
        "distinct_interleavings_and_fault_traces": len(b.inter),
        "faults_fired": dict(sorted(b.fired.items())),
        "operations": dict(sorted(b.ops.items())),
        "intercepted_calls": dict(sorted(b.kinds.items())),
        "probes": dict(sorted(b.probes.items())),
        "real_components": prop.real,
        "stubbed_components": prop.stubs,
        "known_findings_seen": dict(b.known),
    }
    if minfo:
        cov["minimisation"] = minfo
    d = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": prop.assumptions, "wall_s": round(wall_s, 2), "violations": len(b.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(d, f, indent=1)


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    spec = dict(d["spec"])
    spec["trace"] = True
    r = run_forked(lambda s: execute(prop, s), spec, 30 if d["violation"]["cls"] == "hang" else 120)
    v, st = None, {}
    if r[0] == "died":
        v = {"cls": "process-death", "text": str(r[1])}
    elif r[0] == "timeout":
        v = hang(30)
    elif r[0] == "error" and in_repo(r[1]):
        v = raised(r[1])
    elif r[0] != "ok":
        print(r)
        return 2
    else:
        v, st = r[1][0], r[1][1]
    for ln in st.get("trace", [])[-400:]:
        print(ln)
    for s in (r[1][3] if r[0] == "ok" and isinstance(r[1][3], list) else []):
        print(s)
    if same(d["violation"], v):
        print(f"reproduced: [{v['cls']}] {v['text']}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print("not reproduced:", v)
    return 0


def search_digests(prop, seed, workers, n):
    """Digest of each run's event log, for determinism diffs."""
    out = {}

    class P:
        id = prop.id

        @staticmethod
        def gen(s, i):
            return prop.gen(s, i)
        execute = staticmethod(prop.execute)

        @staticmethod
        def known(v):
            return True
    orig = handle

    def h2(p, b, i, res):
        if res[0] == "ok":
            v, st = res[1][0], res[1][1]
            out[i] = f"{st.get('digest')} steps={st.get('steps')} v={v and v['cls']}"
        else:
            out[i] = str(res[0])
    globals()["handle"] = h2
    try:
        search(P, seed, workers, 3600, n, 120)
    finally:
        globals()["handle"] = orig
    return out
