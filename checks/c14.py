"""C14: what a file says was saved is what comes back; faults are raised, not turned into other configurations."""

PROPERTY = "C14"
LEVEL = "exploration"
QUICK_RUNS = 120
THOROUGH_RUNS = 12000
QUICK_WALL = 420
RUN_TIMEOUT = 90

import errno
import gc
import hashlib
import os
import pickle

from dst import fakeh5
from dst.base import Skip, Violation
from dst.core import WallClock
from dst.memory import FILLINGS, Memory
from checks import c06
from checks import parts as P
from checks import rec_common as R
from checks import scene as S

INJECTED = (OSError, MemoryError, KeyError, RuntimeError)


def prepare():
    R.warm()
    c06.HashOrder.install()
    Memory.install()


def gen(ch):
    if ch.flag(0.6):
        return P.gen_spec(ch)
    s = S.gen_spec(ch, max_devices=3, wide=True)
    s["unseeded"] = True
    s["extras"] = {i: dict(rf=(None, "noisy")[ch.choose(2)]) for i in range(s["devices"])}
    for l in s["links"]:
        l["coding"] = c06.CODINGS[ch.choose(len(c06.CODINGS))] if l["kind"] in ("rrc", "ofdm") else ()
    return s


def build(spec):
    return (P.build(spec) if "ops" in spec else S.build(spec, 1)).scenario


def outcome(scenario, seed, drops):
    scenario.seed = seed
    out = []
    for k in range(drops):
        d = scenario.drop(0.5 * (k + 1))
        snap = S.drop(d)
        out.append((snap[:2] + snap[3:], R.channels(d, scenario)))
    return out


class Store:
    """One way of keeping configurations in files."""

    def __init__(self, kind, scratch, shared="shared"):
        self.kind, self.scratch, self.shared = kind, scratch, shared

    def path(self, name):
        return os.path.join(self.scratch, f"{name}.h5")

    def save(self, factory, obj, name):
        if self.kind == "file":
            factory.to_HDF(self.path(name), obj)
            return
        p = factory.serialize(self.path(self.shared if self.kind == "campaign" else name), name if self.kind == "campaign" else None)
        try:
            p.serialize_object(obj, "configuration")
        finally:
            p.finalize()

    def restore(self, factory, cls, name):
        if self.kind == "file":
            return factory.from_HDF(self.path(name), cls)
        p = factory.deserialize(self.path(self.shared if self.kind == "campaign" else name), name if self.kind == "campaign" else None)
        try:
            return p.deserialize_object("configuration", cls)
        finally:
            p.finalize()


def run(ch, scratch):
    from hermespy.core.factory import Factory
    from hermespy.simulation import SimulationScenario

    counters, trace = {}, []

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    spec = gen(ch)
    seed, drops = ch.choose(1000), 1 + ch.choose(2)
    c06.HashOrder.current = c06.HashOrder()
    Memory.filling = 0.0
    try:
        ref = outcome(build(spec), seed, drops)
    except Exception as e:
        if "ops" in spec:
            raise Skip(f"unsupported combination: {type(e).__name__}: {e}")
        raise
    original = build(spec)
    c06.HashOrder.current = c06.HashOrder(ch)
    factory = Factory()
    others = []
    generation = {}  # name -> number of save/restore steps between the original and what the file holds
    subjects = [(0, original)]
    nontrivial = 0
    case = lambda: f"{trace}; {spec}"  # noqa

    def check(got, what):
        for n, (a, b) in enumerate(zip(ref, got)):
            r = S.diff(a[0], b[0]) or S.diff(a[1], b[1], "channels")
            if r:
                raise Violation("not_restored", f"{what}: drop {n} under the same seed differs: {r}; {case()}")

    def channels_of(s):
        return {(i, j): s.channel(s.devices[i], s.devices[j]) for (i, j) in spec["channels"]}

    gc.collect()
    before_open = R.open_handles()

    with WallClock(ch) as wall, fakeh5.Disk() as disk:

        def plan(span_w, span_o, span_r):
            """Injects at most one fault into the next operation."""
            disk.faults, disk.op_faults, disk.read_faults, disk.full_until = {}, {}, {}, None
            k = ch.choose(3)
            if span_r is not None:
                disk.read_faults = {disk.reads + ch.choose(max(1, span_r)): True}
            elif k == 0 and span_w:
                disk.faults = {disk.writes + ch.choose(span_w): ("full", errno.EIO, errno.ENOSPC)[ch.choose(3)]}
            else:
                disk.op_faults = {disk.ops + ch.choose(max(1, span_o)): (OSError, MemoryError, KeyError)[ch.choose(3)]}

        def calm():
            disk.faults, disk.op_faults, disk.read_faults, disk.full_until = {}, {}, {}, None

        span = [40, 60, 40]
        shared = "shared"

        def save(store, s, name, faulty):
            if faulty:
                plan(span[0], span[1], None)
            before = dict(disk.fired)
            w, o = disk.writes, disk.ops
            failed = None
            try:
                store.save(factory, s, name)
                for (i, j), c in channels_of(s).items():
                    store.save(factory, c, f"{name}_{i}_{j}")
            except INJECTED as e:
                if disk.fired == before:
                    raise
                failed = e
            calm()
            if failed is None:
                span[0], span[1] = max(1, disk.writes - w), max(1, disk.ops - o)
            return failed

        def restore(store, name, faulty):
            if faulty:
                plan(0, 0, span[2])
            before = dict(disk.fired)
            r0 = disk.reads
            try:
                s = store.restore(factory, SimulationScenario, name)
                for (i, j), c in channels_of(original).items():
                    s.set_channel(s.devices[i], s.devices[j], store.restore(factory, type(c), f"{name}_{i}_{j}"))
            except INJECTED as e:
                if disk.fired == before:
                    raise
                calm()
                return None, e
            calm()
            span[2] = max(1, disk.reads - r0)
            # the noise levels of devices are documented not to be persisted
            for d, e in zip(original.devices, s.devices):
                e.noise_level = d.noise_level
            return s, None

        for step in range(1 + ch.choose(3)):
            if ch.flag(0.4):
                Memory.filling = FILLINGS[ch.choose(len(FILLINGS))]
                count("fault:memory_contents")
            if ch.flag(0.2):
                gc.collect()
                count("fault:collection")
            gen_, s = subjects[ch.choose(len(subjects))]
            store = Store(("file", "file", "object", "campaign")[ch.choose(4)], scratch, shared)
            name = f"c{step}"
            if ch.flag(0.2):
                # somebody else uses the same factory in between
                o = P.build(P.gen_spec(ch)).scenario if ch.flag(0.3) else build(R.spec_small(ch, max_devices=2))
                factory.to_HDF(os.path.join(scratch, "other.h5"), o)
                others.append(o)
                count("fault:interleaved_save")
            if ch.flag(0.15):
                s = pickle.loads(pickle.dumps(s))
                count("fault:moved_to_copy")
            used = ch.flag(0.3)
            if used:
                s.seed = ch.choose(1000)
                try:
                    s.drop()
                except Exception as e:
                    if "ops" in spec and gen_ == 0:
                        raise Skip(f"unsupported combination: {type(e).__name__}: {e}")
                    raise
                count("probe:saved_after_use")
            faulty = ch.flag(0.3)
            trace.append(("save", gen_, store.kind, faulty))
            fired = dict(disk.fired)
            failed = save(store, s, name, faulty)
            if failed is not None:
                trace.append(("failed", type(failed).__name__))
                count("probe:save_raised")
                nontrivial += 1
                if isinstance(failed, OSError) and any(not k.startswith("OSError_in") and v != fired.get(k, 0) for k, v in disk.fired.items()):
                    # HDF5 itself may neither finish nor release a file it failed to write
                    store = Store("file", scratch)
                    name += "again"
                    shared = f"shared{step}"
                failed = save(store, s, name, False)
                if failed is not None:
                    raise Violation("not_saved", f"saving again after a failure fails: {type(failed).__name__}: {failed}; {case()}")
            faulty = ch.flag(0.25)
            got, failed = restore(store, name, faulty)
            if failed is not None:
                trace.append(("restore failed", type(failed).__name__))
                count("probe:restore_raised")
                got, failed = restore(store, name, False)
                if failed is not None:
                    raise Violation("not_restored", f"restoring again after a read error fails: {type(failed).__name__}: {failed}; {case()}")
            trace.append(("restored", gen_ + 1))
            nontrivial += 1
            if len(got.devices) != len(original.devices):
                raise Violation("not_restored", f"{len(got.devices)} instead of {len(original.devices)} devices; {case()}")
            try:
                result = outcome(got, seed, drops)
            except Exception as e:
                raise Violation("restored_unusable", f"the restored scenario fails with {type(e).__name__}: {str(e)[:300]}, the original does not; {case()}") from e
            check(result, f"scenario restored from a {store.kind} (generation {gen_ + 1})")
            subjects.append((gen_ + 1, got))
        # saving left the original alone
        check(outcome(original, seed, drops), "the original after it was saved")
        for k, v in disk.fired.items():
            count("fault:" + k, v)
        # files the library could not close stay open
        if R.open_handles() > before_open and not any(k.startswith(("disk_full", "write_error")) for k in disk.fired):
            raise Violation("left_open", f"{R.open_handles() - before_open} files are still open; {case()}")
        sim_time = wall.elapsed
        count("fault:clock_jump", wall.jumps)
    c06.HashOrder.current = None
    Memory.filling = None
    count("fault:hash_order")
    h = hashlib.blake2b(repr((trace, [S.digest(a) for a, _ in ref])).encode(), digest_size=8).hexdigest()
    return dict(digest=h, sched=h, key=repr((c06.kinds(spec), [t[:1] + t[2:] for t in trace])), counters=counters, sim_time=sim_time, steps=len(trace) + drops, nontrivial=nontrivial > 0, sample=repr((spec, trace))[:800])
