"""Seam for directory creation: scheduling points and injected errors at ``mkdir`` and around path queries.

Active only while a :class:`Dirs` is installed and only for paths below its root."""

from __future__ import annotations

import os

DIRS = None


class Dirs:
    def __init__(self, root, sim, plan):
        self.root = os.path.realpath(root)
        self.sim, self.plan = sim, plan  # plan(task, path) -> errno | None
        self.created = []  # (task id, path)
        self.fired = {}

    def __enter__(self):
        global DIRS
        DIRS = self
        return self

    def __exit__(self, *_):
        global DIRS
        DIRS = None

    def covers(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if not isinstance(p, str):
            return False
        p = os.path.abspath(p)
        return p == self.root or p.startswith(self.root + os.sep)


def install():
    real_mkdir, real_stat = os.mkdir, os.stat

    def mkdir(path, mode=0o777, *, dir_fd=None):
        D = DIRS
        me = D.sim.me() if D is not None else None
        if me is None or not D.covers(path):
            return real_mkdir(path, mode, dir_fd=dir_fd)
        D.sim.yield_point("mkdir")
        e = D.plan(me, os.path.abspath(path))
        if e is not None:
            D.fired[e] = D.fired.get(e, 0) + 1
            raise OSError(e, os.strerror(e), path)
        real_mkdir(path, mode, dir_fd=dir_fd)
        D.created.append((me.tid, os.path.abspath(path)))
        D.sim.yield_point("mkdir done")

    def stat(path, *a, **k):
        D = DIRS
        if D is None:
            return real_stat(path, *a, **k)
        me = D.sim.me()
        if me is not None and D.covers(path):
            D.sim.yield_point("stat")
        return real_stat(path, *a, **k)

    os.mkdir, os.stat = mkdir, stat
    import genericpath, posixpath  # noqa: both resolve os.stat at call time
