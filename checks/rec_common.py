"""Recording sessions over real scenarios and a reference model of the recording files."""

from __future__ import annotations

import gc
import os
import weakref

import numpy as np

from dst.base import Violation
from checks import scene as S


class EagerIds:
    """Stand-in for ``id`` which reuses the identifiers of dead objects immediately, in an order drawn from the seed.

    CPython promises uniqueness among simultaneously living objects only; which identifier a new object obtains is up to
    the memory allocator, i.e. a source of nondeterminism the simulator decides.
    """

    def __init__(self, ch):
        self.ch, self.live, self.free, self.next, self.reused = ch, {}, [], 1 << 60, 0

    def __call__(self, obj):
        k = id(obj)
        e = self.live.get(k)
        if e is not None and e[0]() is obj:
            return e[1]
        if self.free:
            v = self.free.pop(self.ch.choose(len(self.free)) if len(self.free) < 64 else -1)
            self.reused += 1
        else:
            v = self.next
            self.next += 1
        try:
            ref = weakref.ref(obj, lambda r, k=k, v=v: self._dead(r, k, v))
        except TypeError:
            return k
        self.live[k] = (ref, v)
        return v

    def _dead(self, ref, k, v):
        e = self.live.get(k)
        if e is not None and e[0] is ref:
            del self.live[k]
        self.free.append(v)

    def __enter__(self):
        import hermespy.core.factory as F

        # collections of reference cycles happen at points decided by the seed, not by allocation counts
        gc.collect()
        gc.disable()
        F.id = self
        return self

    def collect(self):
        if self.ch.flag(0.1):
            gc.collect()

    def __exit__(self, *_):
        import hermespy.core.factory as F

        del F.id
        gc.enable()
        return False


class Party:
    """One scenario together with the notifications its operators emit."""

    def __init__(self, spec, seed=None, scenario=None):
        sc = S.build(spec, seed) if scenario is None else None
        self.spec = spec
        self.scenario = sc.scenario if scenario is None else scenario
        self.log = []
        self.attach()

    def attach(self):
        for di, d in enumerate(self.scenario.devices):
            for oi, o in enumerate(d.transmitters):
                o.add_transmit_callback(lambda t, k=("tx", di, oi): self.log.append((k, S.transmission(t))))
            for oi, o in enumerate(d.receivers):
                o.add_receive_callback(lambda r, k=("rx", di, oi): self.log.append((k, S.reception(r))))


def expected_log(snap):
    """Notifications a drop must cause: every operator's transmission and reception, exactly once."""
    out = {}
    for di, d in enumerate(snap[3]):
        for oi, t in enumerate(d[8]):
            out[("tx", di, oi)] = t
    for di, d in enumerate(snap[4]):
        for oi, r in enumerate(d[8]):
            out[("rx", di, oi)] = r
    return out


def check_log(log, snap, where):
    exp = expected_log(snap)
    seen = {}
    for k, v in log:
        if k in seen:
            raise Violation("notified_twice", f"{where}: {k} notified more than once")
        seen[k] = v
    if set(seen) != set(exp):
        raise Violation("notifications_differ", f"{where}: notified {sorted(seen)} instead of {sorted(exp)}")
    order = [k[0] for k, _ in log]
    for k, v in seen.items():
        r = S.diff(exp[k], v)
        if r:
            raise Violation("notified_value", f"{where}: operator {k} was notified about something else than the recorded information: {r}")


_PROBE = None


def channels(drop, scenario=None):
    """Facts about the channel realizations of a drop, including how they propagate a probe signal between two devices."""
    from hermespy.core import Signal

    global _PROBE
    if _PROBE is None:
        rng = np.random.default_rng(3)
        _PROBE = rng.normal(size=(1, 40)) + 1j * rng.normal(size=(1, 40))
    out = []
    for c in getattr(drop, "channel_realizations", ()):
        facts = [type(c).__name__, float(c.gain)]
        if scenario is not None:
            for t in (0.0, 1e-3):
                states = [d.state(t) for d in scenario.devices]
                facts.append(S.sig(c.sample(states[-1], states[0]).propagate(Signal.Create(_PROBE, 2e6, 1e9))))
        out.append(tuple(facts))
    return out


def open_handles():
    """Number of HDF5 files open in this process."""
    import h5py

    return h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE)


def close_all():
    """Closes files earlier runs of this process left open."""
    import gc
    import h5py

    for i in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE) if open_handles() else ():
        try:
            h5py.File(i).close()
        except (OSError, RuntimeError, ValueError):
            pass
    gc.collect() if open_handles() else None


def spec_small(ch, max_devices=2, rich=False):
    """Scenarios of recordings: cheap channels mostly, the full set for ``rich``."""
    chans = S.CHANNELS if rich else ("ideal", "delay", "tdl", "exponential", "single", "spatial", "cost259")
    return S.gen_spec(ch, max_devices=max_devices, channels=chans, wide=True)


_WARM = False


def warm():
    """Compiles the numba kernels once per process, outside of the simulated runs."""
    global _WARM
    if _WARM:
        return
    _WARM = True
    from dst.choices import Choices

    for k in range(2):
        spec = dict(devices=2, antennas=[1, 1], links=[dict(kind=x, tx=i % 2, rx=(i + 1) % 2, var=0) for i, x in enumerate(("sig", "rrc", "ofdm", "radar"))], channels={(1, 0): ("tdl", "cost259")[k]}, noise=[0.0, 0.0], trigger=None, seed=1)
        S.build(spec).scenario.drop()


def remove(path):
    if os.path.exists(path):
        os.remove(path)
