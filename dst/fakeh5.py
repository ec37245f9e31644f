"""Simulated disk below h5py: real HDF5 library, but every byte passes a Python file object which can fail.

While a :class:`Disk` is active, ``h5py.File(path)`` opens the path through h5py's file-object driver. Disk faults are
raised at the n-th write, library faults at the n-th h5py object creation, and a crash drops all writes from the n-th on.
"""

from __future__ import annotations

import errno
import io
import os

DISK = None
ZOMBIES: list = []


class SimCrash(BaseException):
    """The process died."""


class Disk:
    def __init__(self):
        self.writes = 0  # writes so far
        self.ops = 0  # h5py creations so far
        self.crashed = False
        self.reads = 0
        self.read_faults = {}
        self.faults = {}  # write index -> errno / "crash"
        self.op_faults = {}  # op index -> exception factory
        self.full_until = None  # every write fails while the counter is below
        self.fired = {}
        self.open_files = []

    def count(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1

    def __enter__(self):
        global DISK
        DISK = self
        return self

    def __exit__(self, *_):
        global DISK
        DISK = None
        # the library keeps using the file objects of files which could not be closed
        ZOMBIES.extend(f for f in self.open_files if not f.closed and f.in_use())
        return False

    def on_write(self, n):
        """Returns the number of bytes which reach the disk."""
        i = self.writes
        self.writes += 1
        if self.crashed:
            return 0
        f = self.faults.pop(i, None)
        if f == "crash":
            self.crashed = True
            self.count("crash")
            return 0
        if f == "crash_torn":
            self.crashed = True
            self.count("crash_torn_write")
            return n // 2
        if f == "full":
            self.full_until = i + 12
        if self.full_until is not None:
            if i < self.full_until:
                self.count("disk_full")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            self.full_until = None
        if f is not None:
            self.count("write_error_" + errno.errorcode[f])
            raise OSError(f, os.strerror(f))
        return n

    def on_read(self):
        i = self.reads
        self.reads += 1
        if self.read_faults.pop(i, None) and not self.crashed:
            self.count("read_error_EIO")
            raise OSError(errno.EIO, os.strerror(errno.EIO))

    def on_op(self, what):
        i = self.ops
        self.ops += 1
        f = self.op_faults.pop(i, None)
        if f is not None and not self.crashed:
            self.count(f"{f.__name__}_in_{what}")
            raise f(f"injected at {what}")


class SimFile(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk, self.path = disk, path
        self.raw = open(path, mode, buffering=0)
        disk.open_files.append(self)

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        return self.raw.seek(pos, whence)

    def tell(self):
        return self.raw.tell()

    def readinto(self, b):
        self.disk.on_read()
        return self.raw.readinto(b)

    def read(self, n=-1):
        self.disk.on_read()
        return self.raw.read(n)

    def write(self, b):
        n = len(b)
        m = self.disk.on_write(n)
        if m:
            self.raw.write(bytes(b)[:m])
        if m < n:
            self.raw.seek(n - m, 1)
        return n

    def truncate(self, size=None):
        if not self.disk.crashed:
            self.raw.truncate(size)
        return size

    def flush(self):
        pass


def install():
    import h5py

    real = h5py.File

    class File(real):
        def __init__(self, name, mode="r", *a, **k):
            disk = DISK
            if disk is None or not isinstance(name, (str, os.PathLike)):
                real.__init__(self, name, mode, *a, **k)
                return
            name = os.fspath(name)
            for f in list(disk.open_files):
                if f.path == name and not f.closed and f.in_use():
                    if mode != "r" or f.mode_w:
                        raise BlockingIOError(errno.EAGAIN, "Unable to synchronously open file (unable to lock file)")
            if mode in ("a", "r+"):
                exists = os.path.exists(name)
                if mode == "r+" and not exists:
                    raise FileNotFoundError(name)
                fm, hm = ("r+b", "r+") if exists else ("w+b", "w")
            elif mode in ("w", "w-", "x"):
                if mode != "w" and os.path.exists(name):
                    raise FileExistsError(name)
                fm, hm = "w+b", "w"
            else:
                if not os.path.exists(name):
                    raise FileNotFoundError(errno.ENOENT, "Unable to synchronously open file", name)
                fm, hm = "rb", "r"
            obj = SimFile(disk, name, fm)
            obj.mode_w = hm != "r"
            self._simfile = obj
            try:
                real.__init__(self, obj, hm, *a, **k)
            except BaseException:
                disk.open_files.remove(obj)
                obj.raw.close()
                raise
            obj.fid = self.id

    def in_use(self):
        try:
            return bool(self.fid.valid)
        except Exception:
            return False

    SimFile.in_use = in_use
    File.__name__ = "File"
    h5py.File = File

    def wrap(cls, name):
        orig = getattr(cls, name)

        def f(self, *a, **k):
            if DISK is not None:
                DISK.on_op(name)
            return orig(self, *a, **k)

        f.__name__ = name
        setattr(cls, name, f)

    wrap(h5py.Group, "create_dataset")
    wrap(h5py.Group, "create_group")
    wrap(h5py.AttributeManager, "create")
