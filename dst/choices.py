"""Single source of all nondeterminism of a simulated run.

Every decision (workload generation, scheduling, delays, faults) is one integer drawn from a
:class:`Choices` object.  In *search* mode the integers come from one PRNG seeded with the run seed; in
*replay* mode they come from a recorded list, and everything beyond its end is 0.  By convention 0 is always
the simplest alternative (no fault, no pre-emption, smallest size), so a generic list minimiser shrinks
workload, schedule and faults at once.
"""

from __future__ import annotations

import random


class RunAborted(Exception):
    """The run drew more decisions than its cap."""


class Choices:
    def __init__(self, seed: int | None = None, prefix: list[int] | None = None, cap: int = 400_000):
        self.seed = seed
        self._prefix = prefix
        self._rng = random.Random(seed) if prefix is None else None
        self.record: list[int] = []
        self.cap = cap

    def choose(self, n: int, weights=None) -> int:
        """Integer in [0, n)."""
        if n <= 1:
            return 0
        i = len(self.record)
        if i >= self.cap:
            raise RunAborted("choice cap reached")
        if self._prefix is not None:
            v = self._prefix[i] if i < len(self._prefix) else 0
            v = v if 0 <= v < n else v % n
        elif weights is None:
            v = self._rng.randrange(n)
        else:
            total = float(sum(weights))
            x = self._rng.random() * total
            v = n - 1
            for k, w in enumerate(weights):
                if x < w:
                    v = k
                    break
                x -= w
        self.record.append(v)
        return v

    def flag(self, p: float) -> bool:
        """True with probability p; False is the simple alternative."""
        if p <= 0.0:
            return False
        return bool(self.choose(2, (1.0 - p, p)))

    def integer(self, lo: int, hi: int) -> int:
        """Integer in [lo, hi]; lo is the simplest."""
        return lo + self.choose(hi - lo + 1)

    def pick(self, seq):
        """Element of a sequence; the first is the simplest."""
        return seq[self.choose(len(seq))]

    def geometric(self, mean: float, hi: int) -> int:
        """0 (never) or a distance in [1, hi], roughly log-uniform: short and long distances both occur."""
        # number of bits first, then offset: stays shrinkable
        bits = self.choose(max(1, hi.bit_length()) + 1)
        if bits == 0:
            return 0
        lo = 1 << (bits - 1)
        return min(hi, lo + self.choose(lo))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.choose(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq
