"""Seam for operating system signals: handlers are registered in a simulated table while one is active."""

from __future__ import annotations

import signal as _signal

TABLE = None


class SignalTable:
    """Simulated handler table of one process, deliveries happen where the simulation decides."""

    def __init__(self):
        self.handlers = {}
        self.changes = 0

    def __enter__(self):
        global TABLE
        TABLE = self
        return self

    def __exit__(self, *_):
        global TABLE
        TABLE = None

    def get(self, signum):
        return self.handlers.get(int(signum), _signal.default_int_handler if signum == _signal.SIGINT else _signal.SIG_DFL)

    def set(self, signum, handler):
        from . import core

        s = core.CURRENT
        if s is not None and s.me() is not None and s.me().tid != 0:
            raise ValueError("signal only works in main thread of the main interpreter")
        if not callable(handler) and handler not in (_signal.SIG_DFL, _signal.SIG_IGN):
            raise TypeError("signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object")
        old = self.get(signum)
        self.handlers[int(signum)] = handler
        self.changes += 1
        return old

    def deliver(self, signum=_signal.SIGINT, frame=None):
        h = self.get(signum)
        if h == _signal.SIG_IGN:
            return
        if h == _signal.SIG_DFL:
            raise KeyboardInterrupt
        h(signum, frame)


def install():
    real_signal, real_get = _signal.signal, _signal.getsignal

    def signal(signalnum, handler):
        return real_signal(signalnum, handler) if TABLE is None else TABLE.set(signalnum, handler)

    def getsignal(signalnum):
        return real_get(signalnum) if TABLE is None else TABLE.get(signalnum)

    _signal.signal, _signal.getsignal = signal, getsignal
