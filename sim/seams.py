"""Seams: locks, clock, native compression, line events of the code under test.

`install()` must run in the zygote before SQLAlchemy or the code under test is
imported.  Outside a simulation every seam behaves like the original.
"""
import _thread
import hashlib
import os
import sys
import threading
import time

from . import kernel
from .kernel import current_task

_real_lock = _thread.allocate_lock
_real_time = time.time
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_sleep = time.sleep
_orig_Lock, _orig_RLock, _orig_Condition = threading.Lock, threading.RLock, threading.Condition

REPO_SRC = os.path.realpath(os.environ.get("SIM_REPO", "/repo/src")) + os.sep


class SimLock:
    """A lock scheduled by the simulator; degenerates to bookkeeping outside it."""
    _re = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        t = current_task()
        me = t if t is not None else "main"
        if self._re and self._owner is me:
            self._count += 1
            return True
        if t is None:
            if self._owner is not None:
                if not blocking:
                    return False
                raise kernel.HarnessError("lock held by a simulated task requested outside the simulation")
            self._owner, self._count = me, 1
            return True
        sim = kernel.CURRENT
        sim.point("lock", 1e-6, "acq")
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            if deadline is not None and sim.now >= deadline:
                return False
            self._waiters.append(t)
            sim.block(self, None if deadline is None else deadline - sim.now)
            if t in self._waiters:
                self._waiters.remove(t)
        self._owner, self._count = me, 1
        return True

    def release(self):
        t = current_task()
        me = t if t is not None else "main"
        if self._re and self._owner is not me:
            raise RuntimeError("cannot release un-acquired lock")
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count > 0:
            return
        self._owner = None
        if self._waiters and kernel.CURRENT is not None:
            kernel.CURRENT.wakeup(self._waiters.pop(0))

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    # Condition support
    def _is_owned(self):
        t = current_task()
        return self._owner is (t if t is not None else "main")

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self.__init__()


class SimRLock(SimLock):
    _re = True


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        t = current_task()
        if t is None:
            raise kernel.HarnessError("condition wait outside the simulation")
        sim = kernel.CURRENT
        saved = self._lock._release_save()
        self._waiters.append(t)
        ok = sim.block(self, timeout)
        if t in self._waiters:
            self._waiters.remove(t)
        self._lock._acquire_restore(saved)
        return ok

    def wait_for(self, predicate, timeout=None):
        sim = kernel.CURRENT
        end = None if timeout is None else sim.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - sim.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        for _ in range(n):
            if not self._waiters:
                break
            kernel.CURRENT.wakeup(self._waiters.pop(0))

    def notify_all(self):
        self.notify(len(self._waiters))


def _from_threading():
    return sys._getframe(2).f_globals.get("__name__") in ("threading", "concurrent.futures._base",
                                                           "concurrent.futures.thread", "logging", "queue")


def _Lock():
    return _orig_Lock() if _from_threading() else SimLock()


def _RLock():
    return _orig_RLock() if _from_threading() else SimRLock()


def _Condition(lock=None):
    return _orig_Condition(lock) if _from_threading() else SimCondition(lock)


def _time():
    return kernel.CURRENT.now if current_task() is not None else _real_time()


def _monotonic():
    return kernel.CURRENT.now if current_task() is not None else _real_monotonic()


def _perf():
    return kernel.CURRENT.now if current_task() is not None else _real_perf()


def _sleep(s):
    if current_task() is not None:
        kernel.CURRENT.sleep(s)
    else:
        _real_sleep(s)


# ---------------------------------------------------------------------- zstd
class ConcurrentNativeUse(Exception):
    """Two threads were inside one native (de)compression context: the real
    library corrupts memory here, so the simulator stops the run instead."""


def _wrap_zstd():
    try:
        import zstandard
    except ImportError:
        return

    def make(cls, methods):
        class Wrapped:
            def __init__(self, *a, **k):
                object.__setattr__(self, "_obj", cls(*a, **k))
                object.__setattr__(self, "_in", None)

            def __getattr__(self, name):
                v = getattr(self._obj, name)
                if name not in methods:
                    return v

                def call(*a, **k):
                    t = current_task()
                    if t is None:
                        return v(*a, **k)
                    sim = kernel.CURRENT
                    sim.point("native", 1e-5, "enter")
                    if self._in is not None and self._in.state != "dead":
                        sim.probe("native-context-shared")
                        sim.native_race = f"{self._in.name} and {t.name} inside one {cls.__name__}.{name} context at once"
                        sim.stop("native-race")
                    object.__setattr__(self, "_in", t)
                    try:
                        f = sim.faults.draw("native", ["nomem"])
                        sim.point("native", 2e-5, "inside")
                        if f:
                            raise MemoryError("injected: native allocation failed")
                        r = v(*a, **k)
                        sim.point("native", 2e-5, "exit")
                        return r
                    finally:
                        object.__setattr__(self, "_in", None)
                return call
        Wrapped.__name__ = cls.__name__
        return Wrapped
    zstandard.ZstdCompressor = make(zstandard.ZstdCompressor, {"compress", "stream_writer", "copy_stream"})
    zstandard.ZstdDecompressor = make(zstandard.ZstdDecompressor, {"decompress", "copy_stream"})


# ---------------------------------------------------------------------- lines
_mon = sys.monitoring
TOOL = 4
LINE_KINDS = ["MemoryError", "KeyboardInterrupt"]
_EXC = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}


def _on_line(code, line):
    fn = code.co_filename
    if not fn.startswith(REPO_SRC):
        return _mon.DISABLE
    sim = kernel.CURRENT
    if sim is None:
        return None
    t = kernel.TASKS.get(_thread.get_ident())
    if t is None or sim.current is not t:
        return None
    if t.noyield:
        # still count steps so that an endless loop is noticed
        sim.steps += 1
        if sim.steps >= sim.max_steps:
            sim.stop_reason = sim.stop_reason or "steps"
            sim._die(t)
        return None
    if sim.line_faults and not t.nofault:
        f = sim.faults.draw("line", LINE_KINDS)
        if f:
            raise _EXC[f["kind"]]("injected at a line of the code under test")
    sim.point("line", 2e-6, fn[len(REPO_SRC):] + ":" + str(line) if sim.trace is not None else code.co_name)
    return None


def lines_on():
    _mon.set_events(TOOL, _mon.events.LINE)


def lines_off():
    _mon.set_events(TOOL, 0)


# ---------------------------------------------------------------------- imports
def _atomic_import(orig):
    """Imports run without pre-emption: Python's real per-module import locks
    would otherwise block the one thread that holds the baton."""
    def imp(*a, **k):
        t = current_task()
        if t is None:
            return orig(*a, **k)
        t.noyield += 1
        try:
            return orig(*a, **k)
        finally:
            t.noyield -= 1
    return imp


def _wrap_imports():
    import builtins
    import importlib
    builtins.__import__ = _atomic_import(builtins.__import__)
    importlib.import_module = _atomic_import(importlib.import_module)


# ---------------------------------------------------------------------- hashes
SALT = ["0"]


def _hash_of(*a):
    return int.from_bytes(hashlib.blake2b("|".join((SALT[0],) + a).encode(), digest_size=7).digest(), "little")


def _wrap_hashes():
    """Classes and enumeration members of the code under test hash by name and salt,
    not by address, so that the order of sets of them is the simulator's choice."""
    import abc
    import enum
    cache = {}
    orig = enum.Enum.__hash__

    def class_hash(cls):
        m = cls.__dict__.get("__module__", "")
        if not (isinstance(m, str) and m.startswith("pysatl_criterion")):
            return type.__hash__(cls)
        k = (SALT[0], m, cls.__qualname__)
        if k not in cache:
            cache[k] = _hash_of(m, cls.__qualname__)
        return cache[k]

    def member_hash(self):
        m = type(self).__module__
        return _hash_of(m, self.name) if m.startswith("pysatl_criterion") else orig(self)
    abc.ABCMeta.__hash__ = class_hash
    enum.Enum.__hash__ = member_hash


def install():
    _wrap_hashes()
    _wrap_imports()
    threading.Lock, threading.RLock, threading.Condition = _Lock, _RLock, _Condition
    time.time, time.monotonic, time.perf_counter, time.sleep = _time, _monotonic, _perf, _sleep
    _wrap_zstd()
    _mon.use_tool_id(TOOL, "sim")
    _mon.register_callback(TOOL, _mon.events.LINE, _on_line)
