"""A fault-injecting layer over a real scratch directory.

Every file operation below the scratch root is a numbered fault point: it may
fail with an error, be torn (only a prefix of a write reaches the file), or be
the point at which the simulated process crashes.  Data still in user-space
buffers is lost by a crash; data handed to write() survives (process crash).
"""

import builtins
import errno
import io
import os

from . import core
from .core import SimCrash

_open = io.open
_os = {
    name: getattr(os, name)
    for name in (
        "makedirs", "mkdir", "listdir", "remove", "unlink", "rmdir",
        "rename", "replace", "scandir", "fsync", "truncate",
    )
}


class Disk:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.ops = 0
        self.log = []
        # op number -> ("crash", frac) | ("err", errno, frac) | ("short", frac)
        self.plan = {}
        self.sticky = None  # errno for every write from now on
        self.epoch = 0
        self.shuffle = True
        self.written = []  # files opened for writing (unsynced)

    def inside(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = p.decode()
        return p == self.root or p.startswith(self.root + "/")

    def point(self, kind, path, size=0):
        """One fault point; returns how much of the operation to perform.

        None: all of it.  Otherwise (n, exc): perform n units then raise exc
        (exc None: short write)."""
        sim = core.SIM
        if sim is not None and sim.active:
            sim.yield_point()
        k = self.ops
        self.ops += 1
        self.log.append(kind)
        act = self.plan.get(k)
        if act is None:
            if self.sticky and kind in ("write", "create", "mkdir", "rename"):
                sim.fault("disk_" + errno.errorcode[self.sticky])
                return 0, OSError(self.sticky, os.strerror(self.sticky))
            return None
        if act[0] == "crash":
            sim.fault("crash_" + kind)
            self.epoch += 1  # nothing opened before can be used any more
            return int(size * act[1]), SimCrash()
        if act[0] == "err":
            sim.fault("disk_" + errno.errorcode[act[1]])
            return (
                int(size * act[2]),
                OSError(act[1], os.strerror(act[1])),
            )
        if act[0] == "full":
            self.sticky = errno.ENOSPC
            sim.fault("disk_ENOSPC")
            return (
                int(size * act[1]),
                OSError(errno.ENOSPC, os.strerror(errno.ENOSPC)),
            )
        if act[0] == "short":
            if size > 1:
                sim.fault("disk_short_" + kind)
                return max(1, int(size * act[1])), None
        return None


DISK = None


def set_disk(disk):
    global DISK
    DISK = disk


class FaultRaw(io.RawIOBase):
    """Raw file whose operations are fault points."""

    def __init__(self, path, mode):
        super().__init__()
        self._epoch = DISK.epoch
        self._late = None
        self._disk = DISK
        self._path = os.fspath(path)
        self.mode = mode
        flags = mode.replace("t", "").replace("b", "")
        self._w = any(c in flags for c in "wax+")
        self._r = "r" in flags or "+" in flags
        if self._w:
            res = DISK.point("create", path)
            if res is not None and res[1] is not None:
                raise res[1]
        else:
            res = DISK.point("open", path)
            if res is not None and res[1] is not None:
                raise res[1]
        self._f = _open(path, flags + "b", buffering=0)
        if self._w and self._path not in DISK.written:
            DISK.written.append(self._path)

    @property
    def name(self):
        return self._path

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._f.fileno()

    def _alive(self):
        if self._epoch != self._disk.epoch:
            raise SimCrash()

    def readinto(self, buf):
        self._alive()
        res = self._disk.point("read", self._path, len(buf))
        if res is not None:
            if res[1] is not None:
                raise res[1]
            data = self._f.read(res[0])
        else:
            data = self._f.read(len(buf))
        buf[: len(data)] = data
        return len(data)

    def write(self, data):
        self._alive()
        data = bytes(data)
        if self._late is not None:
            # the previous write was cut short by this error
            exc, self._late = self._late, None
            raise exc
        res = self._disk.point("write", self._path, len(data))
        if res is None:
            return self._f.write(data)
        n, exc = res
        if n:
            self._f.write(data[:n])
            if isinstance(exc, OSError):
                self._late = exc
                return n
        if exc is not None:
            raise exc
        return n

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        self._alive()
        return self._f.truncate(size)

    def close(self):
        if self.closed:
            return
        super().close()
        self._f.close()


class DeadBuffered:
    """BufferedWriter over FaultRaw; after a crash nothing is flushed."""


def make_writer(raw, buffering):
    from .net import SimBufferedWriter

    class FileWriter(SimBufferedWriter):
        def seekable(self):
            return True

        def seek(self, pos, whence=0):
            with self._lock:
                self._flush()
            return self.raw.seek(pos, whence)

        def truncate(self, size=None):
            with self._lock:
                self._flush()
            return self.raw.truncate(size)

        def close(self):
            if self.raw._epoch != self.raw._disk.epoch:
                self._buf = bytearray()
                self.raw.close()
                return
            super().close()

    return FileWriter(raw, buffering if buffering > 1 else 8192)


class TextWriter:
    """Minimal text layer (utf-8, universal newline off)."""

    def __init__(self, binary, encoding=None):
        self.buffer = binary
        self.encoding = encoding or "utf-8"
        self.errors = "strict"
        self.newlines = None

    def write(self, text):
        self.buffer.write(text.encode(self.encoding))
        return len(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        self.buffer.flush()

    def close(self):
        self.buffer.close()

    @property
    def closed(self):
        return self.buffer.closed

    @property
    def name(self):
        return self.buffer.name

    mode = "w"

    def fileno(self):
        return self.buffer.fileno()

    def isatty(self):
        return False

    def readable(self):
        return False

    def writable(self):
        return True

    def seekable(self):
        return False

    def tell(self):
        return self.buffer.tell()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if DISK is None or not DISK.inside(file):
        return _open(file, mode, buffering, encoding, errors, newline,
                     closefd, opener)
    raw = FaultRaw(file, mode)
    if buffering == 0:
        return raw
    writing = any(c in mode for c in "wax") or "+" in mode
    if "+" in mode:
        raise core.SimError(f"mode {mode} is not simulated")
    if writing:
        out = make_writer(raw, buffering)
        if "b" in mode:
            return out
        return TextWriter(out, encoding)
    rd = io.BufferedReader(raw)
    if "b" in mode:
        return rd
    return io.TextIOWrapper(rd, encoding or "utf-8", errors, newline)


def _wrap(name, kind):
    real = _os[name]

    def wrapper(path, *args, **kwargs):
        if DISK is None or not DISK.inside(path):
            return real(path, *args, **kwargs)
        res = DISK.point(kind, path)
        if res is not None and res[1] is not None:
            raise res[1]
        out = real(path, *args, **kwargs)
        if name == "listdir":
            out = sorted(out)
            if DISK.shuffle and len(out) > 1:
                sim = core.SIM
                for i in range(len(out) - 1, 0, -1):
                    j = i - sim.choose("lsdir", i + 1)
                    out[i], out[j] = out[j], out[i]
        return out

    wrapper.__name__ = name
    return wrapper


def install():
    io.open = sim_open
    builtins.open = sim_open
    os.mkdir = _wrap("mkdir", "mkdir")
    os.listdir = _wrap("listdir", "listdir")
    os.remove = _wrap("remove", "remove")
    os.unlink = _wrap("unlink", "remove")
    os.rmdir = _wrap("rmdir", "rmdir")
    os.rename = _wrap("rename", "rename")
    os.replace = _wrap("replace", "rename")
    import shutil

    shutil._use_fd_functions = False
    # copies go through read and write
    shutil._USE_CP_SENDFILE = False
