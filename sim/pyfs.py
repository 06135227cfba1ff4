"""Python's own file functions for paths of the simulated disk.

The code under test reaches the disk through SQLite; should it look at its database
file by other means (existence, size, copy, removal, marker files), these calls have
to see the same simulated disk and not the real one.  Paths outside /sim/ are untouched.
"""
import builtins
import errno
import io
import os
import stat

from . import kernel, vfs

_real = {}


def _sim(p):
    if type(p) is str:
        s = p
    elif isinstance(p, (bytes, os.PathLike)):
        s = os.fsdecode(p)
    else:
        return None
    if not s.startswith("/sim/") and s != "/sim":
        return None
    return os.path.normpath(s)


def _err(no, p):
    return OSError(no, os.strerror(no), p)


def _find(p):
    """(disk, inode or None, is it a directory)"""
    if any((m.rstrip("/") + "/").startswith(p.rstrip("/") + "/") for m in vfs.DISKS):
        return None, None, True
    d = vfs.disk_of(p)
    if d is None:
        return None, None, False
    return d, d.files.get(p), p in getattr(d, "dirs", ())


def _step(kind, p, faults=()):
    t, f = vfs._enter(kind, None, p, faults)
    if f:
        raise _err(errno.EIO, p)
    return t


def _stat(path, *a, **k):
    p = _sim(path)
    if p is None:
        return _real["stat"](path, *a, **k)
    _step("access", p)
    d, i, isdir = _find(p)
    if isdir:
        return os.stat_result((stat.S_IFDIR | 0o755, 2, 1, 1, 0, 0, 4096, 0, 0, 0))
    if i is None:
        raise _err(errno.ENOENT, p)
    return os.stat_result((stat.S_IFREG | 0o644, vfs_ino(i), 1, 1, 0, 0, len(i.cur), 0, 0, 0))


def vfs_ino(i):
    return int.from_bytes(i.name.encode()[-6:], "little")


def _access(path, mode, *a, **k):
    p = _sim(path)
    if p is None:
        return _real["access"](path, mode, *a, **k)
    _step("access", p)
    d, i, isdir = _find(p)
    return isdir or i is not None


def _remove(path, *a, **k):
    p = _sim(path)
    if p is None:
        return _real["remove"](path, *a, **k)
    t = _step("delete", p, ("del",))
    d, i, isdir = _find(p)
    if i is None:
        raise _err(errno.EISDIR if isdir else errno.ENOENT, p)
    del d.files[p]
    vfs._after("delete", t)


def _mv(name):
    def mv(src, dst, *a, **k):
        p, q = _sim(src), _sim(dst)
        if p is None or q is None:
            return _real[name](src, dst, *a, **k)
        t = _step("delete", p, ("del",))
        d, i, isdir = _find(p)
        if i is None or vfs.disk_of(q) is not d:
            raise _err(errno.ENOENT, p)
        del d.files[p]
        i.name = q
        d.files[q] = i
        vfs._after("delete", t)
    return mv


def _mkdir(path, *a, **k):
    p = _sim(path)
    if p is None:
        return _real["mkdir"](path, *a, **k)
    _step("delete", p)
    d, i, isdir = _find(p)
    if isdir or i is not None:
        raise _err(errno.EEXIST, p)
    if d is None:
        raise _err(errno.EACCES, p)
    d.dirs = getattr(d, "dirs", set()) | {p}


def _listdir(path="."):
    p = _sim(path)
    if p is None:
        return _real["listdir"](path)
    _step("access", p)
    out = {x[len(p) + 1:].split("/")[0] for d in vfs.DISKS.values() for x in d.files if x.startswith(p + "/")}
    out |= {m[len(p) + 1:].split("/")[0] for m in vfs.DISKS if m.startswith(p + "/")} - {""}
    if not out and not _find(p)[2]:
        raise _err(errno.ENOENT, p)
    return sorted(out)


class _File(io.RawIOBase):
    """An unbuffered file of the simulated disk: writes are volatile until os.fsync."""

    def __init__(self, p, mode):
        self.name, self.mode, self.pos = p, mode, 0
        t = _step("open", p, ("cantopen",))
        d, i, isdir = _find(p)
        if isdir:
            raise _err(errno.EISDIR, p)
        if d is None or d.offline:
            raise _err(errno.ENOENT, p)
        if "x" in mode and i is not None:
            raise _err(errno.EEXIST, p)
        if i is None:
            if "r" in mode:
                raise _err(errno.ENOENT, p)
            i = d.files[p] = vfs.Inode(p)
        self.i = i
        if "w" in mode:
            del i.cur[:]
            i.pending.append(("trunc", 0))
        if "a" in mode:
            self.pos = len(i.cur)
        vfs._after("open", t)

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return "r" not in self.mode or "+" in self.mode

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        self.pos = max(0, off + (0, self.pos, len(self.i.cur))[whence])
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        _step("read", self.name, ("eio_read",))
        data = bytes(self.i.cur[self.pos:self.pos + len(b)])
        b[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def write(self, b):
        t = _step("write", self.name, ("eio_write", "full"))
        b = bytes(b)
        if len(self.i.cur) < self.pos:
            self.i.cur.extend(b"\0" * (self.pos - len(self.i.cur)))
        self.i.cur[self.pos:self.pos + len(b)] = b
        self.i.pending.append((self.pos, b))
        self.pos += len(b)
        vfs._after("write", t)
        return len(b)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        vfs._resize(self.i.cur, size)
        self.i.pending.append(("trunc", size))
        return size

    def fileno(self):
        return _fd(self)


_fds = {}


def _fd(f):
    for n, g in _fds.items():
        if g is f:
            return n
    n = 1 << 24 | len(_fds)
    _fds[n] = f
    return n


def _fsync(fd):
    n = fd if isinstance(fd, int) else fd.fileno()
    f = _fds.get(n)
    if f is None:
        return _real["fsync"](fd)
    t = _step("sync", f.name, ("fsync",))
    f.i.durable = bytes(f.i.cur)
    f.i.pending = []
    vfs._after("sync", t)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = _sim(file)
    if p is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = _File(p, mode.replace("b", "").replace("t", ""))
    if buffering == 0:
        return raw
    buf = io.BufferedRandom(raw) if "+" in mode else io.BufferedReader(raw) if "r" in mode else io.BufferedWriter(raw)
    return buf if "b" in mode else io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)


def _getpid():
    t = kernel.current_task()
    if t is None or t.proc is None:
        return _real["getpid"]()
    return 1000 + int.from_bytes(str(t.proc).encode()[-2:], "little")


def install():
    if _real:
        return
    for n in ("stat", "lstat", "access", "remove", "unlink", "rename", "replace", "mkdir", "listdir", "fsync", "fdatasync", "getpid"):
        _real[n] = getattr(os, n)
    _real["open"] = builtins.open
    os.stat = _stat
    os.lstat = lambda path, *a, **k: _stat(path, *a, **k) if _sim(path) else _real["lstat"](path, *a, **k)
    os.access = _access
    os.remove = os.unlink = _remove
    os.rename, os.replace = _mv("rename"), _mv("replace")
    os.mkdir, os.listdir = _mkdir, _listdir
    os.fsync = os.fdatasync = _fsync
    os.getpid = _getpid
    builtins.open = io.open = _open
