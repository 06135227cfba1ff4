"""A simulated disk under SQLite.

A complete SQLite VFS (file and shared-memory methods) written with ctypes and
registered as the default VFS of the libsqlite3 that Python's sqlite3 module uses.
Every file operation of the database engine goes through it: the engine's own
journaling, locking and recovery code is real, the disk, its clock and its lock
manager are simulated.  Files whose name starts with /sim/ live in a `Disk`.

Durability model: data written to a file is volatile until that file is synced; on
power loss every unsynced write survives, is lost or is torn at 512-byte sectors,
independently.  Directory operations (create, delete) are durable in order.
"""
import ctypes as C
import hashlib
import sys

from . import kernel

_lib = C.CDLL("libsqlite3.so.0")

OK, ERROR, BUSY, NOMEM, READONLY, IOERR, FULL, CANTOPEN, NOTFOUND = 0, 1, 5, 7, 8, 10, 13, 14, 12


def _io(n):
    return IOERR | (n << 8)


IOERR_READ, IOERR_SHORT_READ, IOERR_WRITE, IOERR_FSYNC = _io(1), _io(2), _io(3), _io(4)
IOERR_TRUNCATE, IOERR_FSTAT, IOERR_UNLOCK, IOERR_DELETE = _io(6), _io(7), _io(8), _io(10)
IOERR_NOMEM, IOERR_ACCESS, IOERR_LOCK = _io(12), _io(13), _io(15)
IOERR_CLOSE, IOERR_SHMOPEN, IOERR_SHMMAP = _io(16), _io(18), _io(21)
IOERR_DELETE_NOENT = _io(23)

SECTOR = 512


class Inode:
    __slots__ = ("name", "durable", "cur", "pending", "locks", "shm", "shmlocks")

    def __init__(self, name, data=b""):
        self.name = name
        self.durable = bytes(data)
        self.cur = bytearray(data)
        self.pending = []          # (offset, bytes) or ("trunc", size)
        self.locks = {}            # handle -> level
        self.shm = {}
        self.shmlocks = {}         # slot -> list of (handle, excl)


class Disk:
    """All simulated files of one machine."""

    def __init__(self, image=None, capacity=None):
        self.files = {}
        self.wcount = 0
        self.capacity = capacity
        self.offline = False
        for n, d in (image or {}).items():
            self.files[n] = Inode(n, d)

    def image(self):
        """Contents after every process was killed (page cache survives)."""
        return {n: bytes(i.cur) for n, i in sorted(self.files.items())}

    def power_loss(self, salt):
        """Contents after power loss; what survives is a pure function of salt."""
        out = {}
        for n, i in sorted(self.files.items()):
            data = bytearray(i.durable)
            for k, p in enumerate(i.pending):
                h = hashlib.blake2b(f"{salt}|{n}|{k}".encode(), digest_size=64).digest()
                mode = h[0] % 4                      # 0 lost, 1 whole, 2/3 torn
                if p[0] == "trunc":
                    if mode in (1, 2):
                        _resize(data, p[1])
                    continue
                off, b = p
                if mode == 0:
                    continue
                pos = 0
                while pos < len(b):
                    end = min(len(b), ((off + pos) // SECTOR + 1) * SECTOR - off)
                    keep = mode == 1 or (h[1 + ((off + pos) // SECTOR) % 60] & 1)
                    if keep:
                        if len(data) < off + end:
                            data.extend(b"\0" * (off + end - len(data)))
                        data[off + pos:off + end] = b[pos:end]
                    pos = end
            out[n] = bytes(data)
        return out

    def used(self):
        return sum(len(i.cur) for i in self.files.values())


def _resize(data, n):
    if len(data) > n:
        del data[n:]
    else:
        data.extend(b"\0" * (n - len(data)))


class Handle:
    __slots__ = ("ino", "name", "proc", "dead", "level", "flags", "temp", "delete_on_close")


DISKS = {}         # mount prefix, e.g. "/sim/a/" -> Disk
HANDLES = {}
_next = [1]
PROC_HINT = None


def reset():
    DISKS.clear()


def kill_proc(proc):
    for h in list(HANDLES.values()):
        if h.proc == proc and not h.dead:
            _drop_locks(h)
            h.dead = True


def _drop_locks(h):
    ino = h.ino
    if ino is None:
        return
    ino.locks.pop(id(h), None)
    for s in list(ino.shmlocks):
        ino.shmlocks[s] = [x for x in ino.shmlocks[s] if x[0] is not h]


def disk_of(name):
    for p, d in DISKS.items():
        if name.startswith(p):
            return d
    return None


# ------------------------------------------------------------------ C structures
class IoMethods(C.Structure):
    pass


class SqFile(C.Structure):
    _fields_ = [("pMethods", C.POINTER(IoMethods)), ("hid", C.c_longlong)]


PF = C.POINTER(SqFile)
i64 = C.c_longlong
F_close = C.CFUNCTYPE(C.c_int, PF)
F_rw = C.CFUNCTYPE(C.c_int, PF, C.c_void_p, C.c_int, i64)
F_trunc = C.CFUNCTYPE(C.c_int, PF, i64)
F_int = C.CFUNCTYPE(C.c_int, PF, C.c_int)
F_size = C.CFUNCTYPE(C.c_int, PF, C.POINTER(i64))
F_chk = C.CFUNCTYPE(C.c_int, PF, C.POINTER(C.c_int))
F_ctl = C.CFUNCTYPE(C.c_int, PF, C.c_int, C.c_void_p)
F_shmmap = C.CFUNCTYPE(C.c_int, PF, C.c_int, C.c_int, C.c_int, C.POINTER(C.c_void_p))
F_shmlock = C.CFUNCTYPE(C.c_int, PF, C.c_int, C.c_int, C.c_int)
F_void = C.CFUNCTYPE(None, PF)
IoMethods._fields_ = [
    ("iVersion", C.c_int), ("xClose", F_close), ("xRead", F_rw), ("xWrite", F_rw), ("xTruncate", F_trunc),
    ("xSync", F_int), ("xFileSize", F_size), ("xLock", F_int), ("xUnlock", F_int), ("xCheckReservedLock", F_chk),
    ("xFileControl", F_ctl), ("xSectorSize", F_close), ("xDeviceCharacteristics", F_close),
    ("xShmMap", F_shmmap), ("xShmLock", F_shmlock), ("xShmBarrier", F_void), ("xShmUnmap", F_int)]


class Vfs(C.Structure):
    pass


PV = C.POINTER(Vfs)
V_open = C.CFUNCTYPE(C.c_int, PV, C.c_void_p, PF, C.c_int, C.POINTER(C.c_int))
V_del = C.CFUNCTYPE(C.c_int, PV, C.c_char_p, C.c_int)
V_acc = C.CFUNCTYPE(C.c_int, PV, C.c_char_p, C.c_int, C.POINTER(C.c_int))
V_full = C.CFUNCTYPE(C.c_int, PV, C.c_char_p, C.c_int, C.c_void_p)
V_rand = C.CFUNCTYPE(C.c_int, PV, C.c_int, C.c_void_p)
V_sleep = C.CFUNCTYPE(C.c_int, PV, C.c_int)
V_time = C.CFUNCTYPE(C.c_int, PV, C.POINTER(C.c_double))
V_err = C.CFUNCTYPE(C.c_int, PV, C.c_int, C.c_void_p)
V_time64 = C.CFUNCTYPE(C.c_int, PV, C.POINTER(i64))
Vfs._fields_ = [
    ("iVersion", C.c_int), ("szOsFile", C.c_int), ("mxPathname", C.c_int), ("pNext", C.c_void_p),
    ("zName", C.c_char_p), ("pAppData", C.c_void_p), ("xOpen", V_open), ("xDelete", V_del), ("xAccess", V_acc),
    ("xFullPathname", V_full), ("xDlOpen", C.c_void_p), ("xDlError", C.c_void_p), ("xDlSym", C.c_void_p),
    ("xDlClose", C.c_void_p), ("xRandomness", V_rand), ("xSleep", V_sleep), ("xCurrentTime", V_time),
    ("xGetLastError", V_err), ("xCurrentTimeInt64", V_time64), ("xSetSystemCall", C.c_void_p),
    ("xGetSystemCall", C.c_void_p), ("xNextSystemCall", C.c_void_p)]

COST = {"read": 2e-5, "write": 3e-5, "sync": 2e-3, "open": 5e-5, "delete": 1e-4, "lock": 1e-5, "trunc": 3e-5,
        "access": 1e-5, "size": 5e-6, "close": 1e-5, "unlock": 5e-6, "shm": 2e-6}


def _guard(default):
    def deco(fn):
        def wrapped(*a):
            try:
                return fn(*a)
            except BaseException as e:               # noqa: BLE001
                s = kernel.CURRENT
                if s is not None:
                    import traceback
                    s.harness_errors.append("vfs %s: %s" % (fn.__name__, "".join(traceback.format_exception(e))[-2000:]))
                else:
                    sys.stderr.write(f"vfs {fn.__name__}: {e!r}\n")
                return default
        wrapped.__name__ = fn.__name__
        return wrapped
    return deco


def _enter(kind, h=None, name="", faults=()):
    """Common head of every operation: yield, crash, slow and error faults.

    Returns (task, fault) where fault is None or the drawn fault dict."""
    t = kernel.current_task()
    if t is None:
        return None, None
    sim = kernel.CURRENT
    sim.kinds["vfs." + kind] += 1
    sim.point("io", COST.get(kind, 1e-5), kind)
    f = None
    if not t.nofault:
        c = sim.faults.draw("crash", ["kill"]) if kind not in ("size", "access", "unlock") else None
        if c:
            sim.crash_now(t, c, kind)
        c = sim.faults.draw("slow", ["slow"])
        if c:
            sim.sleep(0.05 + 20.0 * c["arg"] ** 3)
        if faults:
            f = sim.faults.draw(kind, list(faults))
    if sim.trace is not None:
        sim.log("vfs", kind, name, f and f["kind"])
    else:
        sim.digest.update(kind.encode())
    return t, f


def _after(kind, t):
    """Crash point right after an operation took effect."""
    if t is None or t.nofault:
        return
    sim = kernel.CURRENT
    c = sim.faults.draw("crash_after", ["kill"])
    if c:
        sim.crash_now(t, c, kind + "+")


ERRCODE = {"eio_read": IOERR_READ, "eio_write": IOERR_WRITE, "full": FULL, "fsync": IOERR_FSYNC,
           "trunc": IOERR_TRUNCATE, "nomem": IOERR_NOMEM, "cantopen": CANTOPEN, "del": IOERR_DELETE,
           "busy": BUSY, "eio_lock": IOERR_LOCK, "access": IOERR_ACCESS, "shmopen": IOERR_SHMMAP}


def _h(pf):
    return HANDLES[pf[0].hid]


@_guard(IOERR_CLOSE)
def x_close(pf):
    h = _h(pf)
    if not h.dead:
        _enter("close", h, h.name)
    _drop_locks(h)
    if h.delete_on_close and not h.dead and h.name:
        d = disk_of(h.name)
        if d:
            d.files.pop(h.name, None)
    HANDLES.pop(pf[0].hid, None)
    return OK


@_guard(IOERR_READ)
def x_read(pf, buf, n, off):
    h = _h(pf)
    if h.dead:
        return IOERR_READ
    t, f = _enter("read", h, h.name, ("eio_read", "nomem"))
    if f:
        return ERRCODE[f["kind"]]
    data = bytes(h.ino.cur[off:off + n])
    if len(data) < n:
        C.memset(buf, 0, n)
        if data:
            C.memmove(buf, data, len(data))
        return IOERR_SHORT_READ
    C.memmove(buf, data, n)
    return OK


def _apply(h, off, data):
    ino = h.ino
    if len(ino.cur) < off:
        ino.cur.extend(b"\0" * (off - len(ino.cur)))
    ino.cur[off:off + len(data)] = data
    if not h.temp:
        ino.pending.append((off, data))


@_guard(IOERR_WRITE)
def x_write(pf, buf, n, off):
    h = _h(pf)
    if h.dead:
        return IOERR_WRITE
    t, f = _enter("write", h, h.name, ("eio_write", "short", "full", "full_short", "nomem"))
    if h.dead:
        return IOERR_WRITE
    data = C.string_at(buf, n)
    if f:
        k = f["kind"]
        if k in ("short", "full_short"):
            part = int(n * f["arg"])
            if part:
                _apply(h, off, data[:part])
            return FULL if k == "full_short" else IOERR_WRITE
        return ERRCODE[k]
    d = None if h.temp else disk_of(h.name)
    if d is not None and d.capacity is not None and not (t is None or t.nofault):
        grow = max(0, off + n - len(h.ino.cur))
        if grow and d.used() + grow > d.capacity:
            kernel.CURRENT.faults.fired["disk.capacity"] += 1
            return FULL
    _apply(h, off, data)
    _after("write", t)
    return OK


@_guard(IOERR_TRUNCATE)
def x_truncate(pf, size):
    h = _h(pf)
    if h.dead:
        return IOERR_TRUNCATE
    t, f = _enter("trunc", h, h.name, ("trunc",))
    if h.dead:
        return IOERR_TRUNCATE
    if f:
        return ERRCODE[f["kind"]]
    _resize(h.ino.cur, size)
    if not h.temp:
        h.ino.pending.append(("trunc", size))
    _after("trunc", t)
    return OK


@_guard(IOERR_FSYNC)
def x_sync(pf, flags):
    h = _h(pf)
    if h.dead:
        return IOERR_FSYNC
    t, f = _enter("sync", h, h.name, ("fsync",))
    if h.dead:
        return IOERR_FSYNC
    if f:
        return ERRCODE[f["kind"]]
    h.ino.durable = bytes(h.ino.cur)
    h.ino.pending.clear()
    _after("sync", t)
    return OK


@_guard(IOERR_FSTAT)
def x_filesize(pf, out):
    h = _h(pf)
    if h.dead:
        return IOERR_FSTAT
    _enter("size", h, h.name)
    out[0] = len(h.ino.cur)
    return OK


def _others(h):
    return [lv for k, lv in h.ino.locks.items() if k != id(h)]


@_guard(IOERR_LOCK)
def x_lock(pf, level):
    h = _h(pf)
    if h.dead:
        return IOERR_LOCK
    if h.level >= level:
        return OK
    t, f = _enter("lock", h, h.name, ("busy", "eio_lock"))
    if h.dead:
        return IOERR_LOCK
    if f:
        return ERRCODE[f["kind"]]
    o = _others(h)
    sim = kernel.CURRENT
    if level == 1:
        if any(x >= 3 for x in o):
            if sim:
                sim.probe("lock-contention-shared")
            return BUSY
    elif level == 2:
        if any(x >= 2 for x in o):
            if sim:
                sim.probe("lock-contention-reserved")
            return BUSY
    else:
        if any(x >= 2 for x in o):
            return BUSY
        if any(x >= 1 for x in o):
            h.level = 3
            h.ino.locks[id(h)] = 3
            if sim:
                sim.probe("lock-contention-exclusive")
            return BUSY
    h.level = level
    h.ino.locks[id(h)] = level
    return OK


@_guard(IOERR_UNLOCK)
def x_unlock(pf, level):
    h = _h(pf)
    if h.dead:
        return OK
    h.level = min(h.level, level)
    if level == 0:
        h.ino.locks.pop(id(h), None)
    else:
        h.ino.locks[id(h)] = h.level
    _enter("unlock", h, h.name)
    return OK


@_guard(IOERR_LOCK)
def x_checkreserved(pf, out):
    h = _h(pf)
    out[0] = int(any(x >= 2 for x in h.ino.locks.values()))
    return OK


@_guard(NOTFOUND)
def x_control(pf, op, arg):
    return NOTFOUND


def x_sector(pf):
    return 4096


def x_devchar(pf):
    return 0


@_guard(IOERR_SHMMAP)
def x_shmmap(pf, region, size, extend, out):
    h = _h(pf)
    if h.dead:
        return IOERR_SHMMAP
    t, f = _enter("shm", h, h.name, ("shmopen",) if extend else ())
    if f:
        return ERRCODE[f["kind"]]
    b = h.ino.shm.get(region)
    if b is None:
        if not extend:
            out[0] = None
            return OK
        b = C.create_string_buffer(size)
        h.ino.shm[region] = b
    out[0] = C.addressof(b)
    return OK


@_guard(IOERR_LOCK)
def x_shmlock(pf, ofst, n, flags):
    h = _h(pf)
    if h.dead:
        return IOERR_LOCK
    _enter("shm", h, h.name)
    L = h.ino.shmlocks
    excl = bool(flags & 8)
    if flags & 1:                                    # unlock
        for s in range(ofst, ofst + n):
            L[s] = [x for x in L.get(s, []) if x[0] is not h]
        return OK
    for s in range(ofst, ofst + n):
        for o, e in L.get(s, []):
            if o is not h and (e or excl):
                return BUSY
    for s in range(ofst, ofst + n):
        L[s] = [x for x in L.get(s, []) if x[0] is not h] + [(h, excl)]
    return OK


@_guard(None)
def x_shmbarrier(pf):
    return None


@_guard(OK)
def x_shmunmap(pf, delete):
    h = _h(pf)
    for s in list(h.ino.shmlocks):
        h.ino.shmlocks[s] = [x for x in h.ino.shmlocks[s] if x[0] is not h]
    if delete:
        h.ino.shm = {}
    return OK


_io_methods = IoMethods(
    2, F_close(x_close), F_rw(x_read), F_rw(x_write), F_trunc(x_truncate), F_int(x_sync), F_size(x_filesize),
    F_int(x_lock), F_int(x_unlock), F_chk(x_checkreserved), F_ctl(x_control), F_close(x_sector),
    F_close(x_devchar), F_shmmap(x_shmmap), F_shmlock(x_shmlock), F_void(x_shmbarrier), F_int(x_shmunmap))


@_guard(CANTOPEN)
def v_open(v, zname, pf, flags, outflags):
    pf[0].pMethods = C.POINTER(IoMethods)()
    name = C.string_at(zname).decode() if zname else ""
    t, f = _enter("open", None, name, ("cantopen",) if name else ())
    if f:
        return CANTOPEN
    h = Handle()
    h.name, h.dead, h.level, h.flags = name, False, 0, flags
    h.proc = t.proc if t is not None else PROC_HINT
    h.temp = not name
    h.delete_on_close = bool(flags & 0x8)
    if not name:
        h.ino = Inode("")
    else:
        d = disk_of(name)
        if d is None or d.offline:
            return CANTOPEN
        ino = d.files.get(name)
        if ino is None:
            if not flags & 0x4:
                return CANTOPEN
            ino = d.files[name] = Inode(name)
        h.ino = ino
    hid = _next[0]
    _next[0] += 1
    HANDLES[hid] = h
    pf[0].hid = hid
    pf[0].pMethods = C.pointer(_io_methods)
    if outflags:
        outflags[0] = flags
    return OK


@_guard(IOERR_DELETE)
def v_delete(v, zname, dirsync):
    name = zname.decode()
    t, f = _enter("delete", None, name, ("del",))
    if f:
        return IOERR_DELETE
    if t is not None and t.state == "dead":
        return IOERR_DELETE
    d = disk_of(name)
    if d is None or d.files.pop(name, None) is None:
        return IOERR_DELETE_NOENT
    _after("delete", t)
    return OK


@_guard(IOERR_ACCESS)
def v_access(v, zname, flags, out):
    name = zname.decode()
    t, f = _enter("access", None, name, ("access",))
    if f:
        return IOERR_ACCESS
    d = disk_of(name)
    ino = d.files.get(name) if d else None
    # like the unix VFS: an empty file counts as absent for the existence test
    out[0] = int(ino is not None and (flags != 0 or len(ino.cur) > 0))
    return OK


@_guard(CANTOPEN)
def v_full(v, zname, n, out):
    b = zname + b"\0"
    if len(b) > n:
        return CANTOPEN
    C.memmove(out, b, len(b))
    return OK


@_guard(0)
def v_rand(v, n, out):
    s = kernel.CURRENT
    b = s.rng.randbytes(n) if s is not None else bytes(range(n % 256)) * (n // max(1, n % 256) + 1)
    C.memmove(out, b[:n], min(n, len(b)))
    return n


@_guard(0)
def v_sleep(v, us):
    t = kernel.current_task()
    if t is not None:
        kernel.CURRENT.probe("busy-wait")
        kernel.CURRENT.sleep(us / 1e6)
    return us


@_guard(0)
def v_time(v, out):
    s = kernel.CURRENT
    out[0] = 2440587.5 + (s.now if s else 0.0) / 86400.0
    return OK


@_guard(0)
def v_time64(v, out):
    s = kernel.CURRENT
    out[0] = int((2440587.5 * 86400.0 + (s.now if s else 0.0)) * 1000)
    return OK


@_guard(0)
def v_err(v, n, out):
    return 0


_vfs = Vfs(2, C.sizeof(SqFile), 512, None, b"simvfs", None, V_open(v_open), V_del(v_delete), V_acc(v_access),
           V_full(v_full), None, None, None, None, V_rand(v_rand), V_sleep(v_sleep), V_time(v_time),
           V_err(v_err), V_time64(v_time64), None, None, None)


def register():
    _lib.sqlite3_initialize()
    rc = _lib.sqlite3_vfs_register(C.byref(_vfs), 1)
    assert rc == 0, rc
