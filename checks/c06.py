"""C06: the seed of a scenario fixes everything its drops contain, whatever else happens around it."""

PROPERTY = "C06"
LEVEL = "exploration"
QUICK_RUNS = 200
THOROUGH_RUNS = 9000
QUICK_WALL = 420
RUN_TIMEOUT = 90

import enum
import gc
import hashlib
import os
import pickle
import random

import numpy as np

from dst.base import Skip, Violation
from dst.core import Sim, WallClock
from dst.memory import FILLINGS, Memory
from checks import parts as P
from checks import rec_common as R
from checks import scene as S


class HashOrder:
    """Decides the hashes, hence the iteration order of sets, of all objects of the library."""

    current = None
    patched = False

    def __init__(self, ch=None):
        self.ch, self.n = ch, 0

    def next(self):
        self.n += 1
        return self.n if self.ch is None else self.ch.choose(64) * 1024 + self.n

    @classmethod
    def install(cls):
        if cls.patched:
            return
        cls.patched = True
        import sys

        import weakref

        table = {}

        def hashed(obj):
            if isinstance(obj, enum.Enum):
                return next(c.__dict__["__hash__"] for c in type(obj).__mro__ if c.__dict__.get("__hash__", hashed) is not hashed)(obj)
            k = id(obj)
            e = table.get(k)
            if e is not None and e[0]() is obj:
                return e[1]
            try:
                ref = weakref.ref(obj, lambda r, k=k: table.pop(k, None) if k in table and table[k][0] is r else None)
            except TypeError:
                return object.__hash__(obj)
            table[k] = (ref, object.__hash__(obj) if cls.current is None else cls.current.next())
            return table[k][1]

        for name, module in list(sys.modules.items()):
            if not name.startswith("hermespy.") or module is None:
                continue
            for c in list(vars(module).values()):
                if isinstance(c, type) and c.__module__ == name and c.__hash__ is object.__hash__ and not issubclass(c, (BaseException, enum.Enum)):
                    try:
                        c.__hash__ = hashed
                    except TypeError:
                        pass


def prepare():
    R.warm()
    HashOrder.install()
    Memory.install()


class Party:
    """A scenario and the description it was built from."""

    def __init__(self, spec, seed=None, scenario=None):
        self.spec, self.scenario = spec, scenario
        if scenario is None:
            self.scenario = (P.build(spec) if "ops" in spec else S.build(spec, seed)).scenario
            if "ops" in spec:
                self.scenario.seed = spec["seed"] if seed is None else seed


CODINGS = ((), ("crc",), ("rep",), ("crc", "int", "rep"), ("s3g",), ("s80211", "rep"))


def spec(ch):
    if ch.flag(0.3):
        s = P.gen_spec(ch)
        s.update(unseeded=True, extras={})
        return s
    if ch.flag(0.4):  # several random channels
        s = S.gen_spec(ch, min_devices=3, max_devices=3, channels=("delay", "tdl", "exponential", "cost259", "single"), kinds=("sig", "sig", "rrc"), wide=True)
    else:
        s = S.gen_spec(ch, max_devices=2, wide=True)
    s["unseeded"] = not ch.flag(0.25)
    s["extras"] = {i: dict(rf=(None, None, "x410", "noisy", "default_noise")[ch.choose(5)]) for i in range(s["devices"])}
    if any(e["rf"] == "x410" for e in s["extras"].values()) and any(l["kind"] == "radar" for l in s["links"]):
        for e in s["extras"].values():
            if e["rf"] == "x410":
                e["rf"] = "noisy"
    for l in s["links"]:
        l["coding"] = CODINGS[ch.choose(len(CODINGS))] if l["kind"] in ("rrc", "ofdm") else ()
    return s


def kinds(s):
    if "ops" in s:
        return sorted(f"{o['kind']}/{o['wave']}" for o in s["ops"]), sorted((d["antenna"], d["rf"] is None) for d in s["devices"])
    return sorted(set(s["channels"].values())), sorted(l["kind"] for l in s["links"])


def program(ch):
    ops = []
    for _ in range(1 + ch.choose(4)):
        if ch.flag(0.25):
            ops.append(("reseed", ch.choose(1000)))
        ops.append(("drop", (0.0, 1.5)[ch.choose(2)]))
    return ops


def execute(party, prog, env):
    """Runs a program; ``env(k, party)`` does whatever happens around and may hand over to an equivalent scenario."""
    out = []
    for k, (op, x) in enumerate(prog):
        party = env(k, party) or party
        s = party.scenario
        if op == "reseed":
            s.seed = x
        else:
            d = s.drop(x)
            snap = S.drop(d)
            # the drop's own time stamp is the wall clock at its generation
            out.append((snap[:2] + snap[3:], R.channels(d, s)))
    env(len(prog), party)
    return out


class Environment:
    """Adversarial surroundings of one execution."""

    def __init__(self, ch, scratch, name, count, threaded=False):
        self.ch, self.scratch, self.name, self.count, self.threaded = ch, scratch, name, count, threaded
        self.other = None
        self.recording = False

    def disturb_globals(self):
        n = self.ch.choose(1 << 16)
        np.random.seed(n)
        random.seed(n)
        np.random.random(self.ch.choose(5))
        self.count("fault:global_random_state")

    def __call__(self, k, party):
        ch = self.ch
        r = None
        if ch.flag(0.5):
            self.disturb_globals()
        if ch.flag(0.5):
            Memory.filling = FILLINGS[ch.choose(len(FILLINGS))]
            self.count("fault:memory_contents")
        if ch.flag(0.2):
            gc.collect()
            self.count("fault:collection")
        if not self.threaded and ch.flag(0.3):
            if self.other is None:
                self.other = S.build(R.spec_small(ch))
            self.other.scenario.drop()
            self.count("fault:interleaved_scenario")
        if ch.flag(0.25) and not self.recording:
            # workers receive pickled copies
            r = Party(party.spec, scenario=pickle.loads(pickle.dumps(party.scenario)))
            self.count("fault:moved_to_copy")
        elif not self.threaded and ch.flag(0.2) and all(e["rf"] != "x410" for e in party.spec["extras"].values()):
            s = party.scenario
            if self.recording:
                s.stop()
                self.recording = False
            else:
                s.record(os.path.join(self.scratch, f"{self.name}.h5"), overwrite=True)
                self.recording = True
            self.count("fault:recording_toggled")
        return r


def compare(ref, got, what, case):
    if len(ref) != len(got):
        raise Violation("count", f"{what}: {len(got)} instead of {len(ref)} drops; {case}")
    for n, (a, b) in enumerate(zip(ref, got)):
        r = S.diff(a[0], b[0]) or S.diff(a[1], b[1], "channels")
        if r:
            raise Violation("not_reproduced", f"{what}: drop {n} under the same seed differs: {r}; {case}")


def run(ch, scratch):
    R.close_all()
    counters = {}

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    threaded = ch.flag(0.3)
    specs = [spec(ch) for _ in range(2 if threaded else 1)]
    progs = [program(ch) for _ in specs]
    case = f"{list(zip(specs, progs))}"

    # reference executions in quiet surroundings
    HashOrder.current = HashOrder()
    refs = []
    Memory.filling, Memory.allocations = 0.0, 0
    for s, p in zip(specs, progs):
        try:
            refs.append(execute(Party(s), p, lambda k, party: None))
        except Exception as e:
            if "ops" in s:
                raise Skip(f"unsupported combination: {type(e).__name__}: {e}")
            raise

    HashOrder.current = HashOrder(ch)
    steps = sum(map(len, progs))
    sim_time = 0.0
    with WallClock(ch) as wall:
        if threaded:
            sim = Sim(ch, max_steps=400_000)
            results, errors = [None] * len(specs), []

            def work(i):
                try:
                    results[i] = execute(Party(specs[i]), progs[i], Environment(ch, scratch, f"t{i}", count, True))
                except Exception as e:  # noqa
                    e.worker = i
                    errors.append(e)
                finally:
                    left[0] -= 1
                    if main is not None and left[0] == 0:
                        sim.wake(main)

            left, main = [len(specs)], None

            def entry():
                nonlocal main
                main = sim.me()
                for i in range(len(specs)):
                    sim.spawn(lambda i=i: work(i), f"scenario{i}")
                sim.trace_calls("/hermespy/", budget=24, mean=8192)
                while left[0]:
                    sim.block("join")

            sim.run(entry)
            for k, v in sim.counters.items():
                count(("fault:" if k == "preemptions" else "") + k, v)
            if errors:
                raise Violation("interference", f"scenario {errors[0].worker} used next to another one fails with {type(errors[0]).__name__}: {str(errors[0])[:500]}; {case}") from errors[0]
            for i, got in enumerate(results):
                compare(refs[i], got, f"scenario {i} next to another thread's scenario", case)
            steps += sim.steps
            count("probe:threaded")
        else:
            env = Environment(ch, scratch, "a", count)
            got = execute(Party(specs[0]), progs[0], env)
            compare(refs[0], got, "disturbed execution", case)
            # the outcome after a seed is set does not depend on what happened before
            p = progs[0]
            seeds = [k for k, o in enumerate(p) if o[0] == "reseed"]
            if seeds and specs[0]["unseeded"]:
                k = seeds[ch.choose(len(seeds))]
                party = Party(specs[0], seed=ch.choose(1000))
                for _ in range(ch.choose(3)):
                    party.scenario.drop()
                got = execute(party, p[k:], lambda k, party: None)
                n = sum(o[0] == "drop" for o in p[:k])
                compare(refs[0][n:], got, "history before the seed was set", case)
                count("probe:reseeded")
        sim_time = wall.elapsed
        count("fault:clock_jump", wall.jumps)
    HashOrder.current = None
    Memory.filling = None
    R.close_all()
    count("fault:hash_order")
    count("probe:uninitialised_allocations", Memory.allocations)
    digests = [S.digest(d) for r in refs for d, _ in r]
    if len(progs[0]) > 1 and len(set(digests)) < len(digests) and not any(o[0] == "reseed" for p in progs for o in p):
        count("probe:equal_drops")
    h = hashlib.blake2b(repr(digests).encode(), digest_size=8).hexdigest()
    return dict(digest=h, sched=h, key=repr([(kinds(s), s["unseeded"], [o[0] for o in p]) for s, p in zip(specs, progs)]), counters=counters, sim_time=sim_time, steps=steps, nontrivial=True, sample=repr((specs, progs))[:800])
