"""The contents of freshly allocated, not yet initialised memory, decided by the simulator.

``numpy.empty`` and buffer-less signals hand out whatever the allocator last kept there: nondeterminism that no
seed reaches. While active, such memory holds a filling chosen per execution instead.
"""

from __future__ import annotations

import numpy as np

FILLINGS = (0.0, 3.75, -1.0e6, 1.0e-3, float("nan"))


class Memory:
    filling: float | None = None  # None: left as the allocator hands it out
    allocations = 0
    _patched = False

    @classmethod
    def install(cls):
        if cls._patched:
            return
        cls._patched = True
        empty, empty_like = np.empty, np.empty_like

        def fill(a):
            if cls.filling is None or a.dtype.hasobject or a.size == 0:
                return a
            cls.allocations += 1
            k, v = a.dtype.kind, cls.filling
            if k in "fc":
                a[...] = v
            elif k in "iu":
                a[...] = 0 if v == 0.0 else 77
            elif k == "b":
                a[...] = v != 0.0
            return a

        def _empty(*args, **kwargs):
            return fill(empty(*args, **kwargs))

        def _empty_like(*args, **kwargs):
            return fill(empty_like(*args, **kwargs))

        np.empty, np.empty_like = _empty, _empty_like

        # functions compiled just in time still find the original
        from numba.extending import overload

        @overload(_empty)
        def _(shape, dtype=float):
            return lambda shape, dtype=float: empty(shape, dtype)

        @overload(_empty_like)
        def _(arr):
            return lambda arr: empty_like(arr)

        from hermespy.core.signal_model import SignalBlock

        new = SignalBlock.__new__

        def __new__(c, num_streams, num_samples, offset=SignalBlock._DEFAULT_OFFSET, buffer=None):
            obj = new(c, num_streams, num_samples, offset, buffer)
            if buffer is None and cls.filling is not None:
                fill(obj.view(np.ndarray))
            return obj

        SignalBlock.__new__ = __new__
