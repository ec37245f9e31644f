"""C07: real simulation campaigns draw fresh randomness for every sample on every worker, evaluate each sample at its own
parameters, and pair the transmissions and receptions of one and the same drop."""

PROPERTY = "C07"
LEVEL = "exploration"
QUICK_RUNS = 64
THOROUGH_RUNS = 6000
QUICK_WALL = 420
RUN_TIMEOUT = 120

import hashlib
import io

import numpy as np

from dst import core, fakeray
from dst.base import Violation
from checks import mc_common as mc
from checks import rec_common as R
from checks import scene as S

from rich.console import Console

from hermespy.channel import IdealChannel
from hermespy.core import ConsoleMode
from hermespy.core.pymonte import Evaluator, register
from hermespy.simulation import N0, Simulation, SimulationScenario


class TunedScenario(SimulationScenario):
    """Scenario with properties registered as simulation parameters impacting late stages only."""

    def __init__(self, seed=None):
        SimulationScenario.__init__(self, seed=seed)
        self.__late = self.__knob = 0

    @register(first_impact="receive_operators", title="Late")
    @property
    def late(self):
        return self.__late

    @late.setter
    def late(self, value):
        self.__late = value

    @register(first_impact="generate_outputs", title="Middle")
    @property
    def middle(self):
        return self.__knob

    @middle.setter
    def middle(self, value):
        self.__knob = value


def prepare():
    R.warm()


def dig(*arrays):
    h = hashlib.blake2b(digest_size=8)
    for a in arrays:
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def samples(signal):
    return np.concatenate([np.array(b) for b in signal.blocks], axis=1)


class Probe(Evaluator):
    """Observes everything the operators publish about a sample."""

    def __init__(self, scene, dims):
        Evaluator.__init__(self)
        self.scenario, self.dims = scene.scenario, dims
        self.tx, self.rx = {}, {}
        self.noisy, self.links = scene.noisy, [l["kind"] for l in scene.spec["links"]]
        self.hooks = []
        self.n = 0
        for i, o in enumerate(scene.tx_ops):
            self.hooks.append(o.add_transmit_callback(Callback(self, "tx", i)))
        for i, o in enumerate(scene.rx_ops):
            self.hooks.append(o.add_receive_callback(Callback(self, "rx", i)))

    @property
    def abbreviation(self):
        return "PROBE"

    @property
    def title(self):
        return "Probe"

    def evaluate(self):
        s = core.CURRENT
        me = s.me()
        worker = me.proc.name if me is not None and me.proc is not None else "main"
        self.n += 1
        values = {}
        for name, obj in self.dims:
            v = getattr(obj, name)
            values[name] = float(v.level) if hasattr(v, "level") else v
        entry = dict(uid=(worker, self.n), values=values, tokens=(), worker=worker, links=[])
        for i, kind in enumerate(self.links):
            t, r = self.tx.get(i), self.rx.get(i)
            e = dict(kind=kind, tx=t is not None, rx=r is not None)
            if t is not None and r is not None:
                e["rxsig"] = dig(samples(r.signal))
                if kind in ("rrc", "ofdm"):
                    e["bits"] = dig(*[np.asarray(f.bits).astype(np.uint8) for f in t.frames])
                    e["nbits"] = sum(len(f.bits) for f in t.frames)
                    tb = np.concatenate([np.asarray(f.bits).ravel() for f in t.frames])
                    rb = np.concatenate([np.asarray(f.decoded_bits).ravel() for f in r.frames])
                    n = min(len(tb), len(rb))
                    e["errors"] = int(np.sum(tb[:n] != rb[:n])) + abs(len(tb) - len(rb))
                elif kind == "silence":
                    a, b = samples(t.signal), samples(r.signal)
                    n = min(a.shape[1], b.shape[1])
                    e["power"] = float(np.mean(np.abs(b[:, :n] - a[:, :n]) ** 2))
            entry["links"].append(e)
        self.rx.clear()  # transmissions may be shared by sections whose parameters only impact later stages
        s.samples.append(entry)
        return mc.LedgerEvaluation(entry)

    def initialize_result(self, grid):
        return mc.LedgerResult(grid, self)


class Callback:
    def __init__(self, probe, what, i):
        self.probe, self.what, self.i = probe, what, i

    def __call__(self, info):
        getattr(self.probe, self.what)[self.i] = info


LEVELS = (1e-15, 1e-9, 1e-6)  # noise power spectral densities, received over a bandwidth of 1 MHz


def gen(ch):
    n = 2
    # one link in each direction, free of interference
    links = [dict(kind=("silence", "rrc", "ofdm")[ch.choose(3)], tx=i, rx=1 - i, var=2 * ch.choose(2), coding=()) for i in range(2)]
    spec = dict(devices=n, antennas=[1] * n, links=links, channels={(0, 1): "ideal"}, noise=[1e-9] * n, trigger=None, seed=ch.choose(1 << 16), unseeded=True, extras={})
    case = dict(spec=spec, actors=1 + ch.choose(4), num_samples=2 + ch.choose(7), mode=("SILENT", "LINEAR")[ch.choose(2)], preempt=(0, 4)[ch.choose(2)], latency=(0.0, 0.2)[ch.choose(2)], reorder=(0.0, 0.3)[ch.choose(2)], slow=ch.choose(5) - 1)
    dims = []
    if ch.flag(0.7):
        dims.append(("noise_level", ch.choose(n + 1) - 1, ch.shuffle(list(LEVELS))[: 1 + ch.choose(3)]))
    if ch.flag(0.4):
        dims.append(("late", -1, [0, 1, 2][: 1 + ch.choose(3)]))
    if ch.flag(0.3):
        dims.append(("middle", -1, [10, 11][: 1 + ch.choose(2)]))
    if not dims:
        dims.append(("middle", -1, [10, 11]))
    case["dims"] = ch.shuffle(dims)
    case["steps"] = ch.choose(4)  # drops along a trajectory
    return case


def run(ch, scratch):
    case = gen(ch)
    spec = case["spec"]
    sim = core.Sim(ch, max_steps=60_000)
    sim.crashed = []
    sim.samples = []
    out = mc.TimedIO(sim)
    o = mc.Outcome()

    class Latency:
        processed = []

        def on_evaluate(self, *_):
            pass

    def main():
        sim.mc = Latency()
        sim.mc.processed = []
        w = sim.ray = fakeray.RayWorld(sim, ch, cpus=case["actors"], reorder=case["reorder"])
        w.latency_prob, w.base_latency = case["latency"], 0.002
        sim.trace_calls("/hermespy/core/pymonte/", budget=case["preempt"], mean=512)
        scenario = TunedScenario(seed=spec["seed"])
        sc = S.build(spec, scenario=scenario)
        sc.noisy = True
        for d in sc.devices:
            d.noise_level = N0(1e-15)
            scenario.set_channel(d, d, IdealChannel(gain=0.0))
        o.expected_drops = 1
        interval = float("inf")
        if case["steps"]:
            from hermespy.core.transformation import Transformation
            from hermespy.simulation import LinearTrajectory

            sc.devices[0].trajectory = LinearTrajectory(Transformation.From_Translation(np.zeros(3)), Transformation.From_Translation(np.array([90.0, 0.0, 0.0])), float(case["steps"]))
            interval = 1.0
            o.expected_drops = case["steps"]
        s = Simulation(scenario, num_samples=case["num_samples"], drop_interval=interval, num_actors=case["actors"], console_mode=ConsoleMode[case["mode"]], dump_results=False)
        s.catch_exceptions = False
        s.console = Console(file=out, width=300, log_path=False, color_system=None)
        o.dims = []
        watched = []
        for name, owner, pts in case["dims"]:
            obj = scenario if owner < 0 else sc.devices[owner]
            if name == "noise_level" and owner < 0:
                scenario.noise_level = N0(1e-15)
            s.new_dimension(name, pts, obj)
            watched.append((name, obj))
            o.dims.append(name)
        s.add_evaluator(Probe(sc, watched))
        try:
            o.result, o.error = s.run(), None
        except (core.Deadlock, core.StepLimit):
            raise
        except Exception as e:
            o.result, o.error = None, e

    sim.run(main)
    if o.error is not None:
        raise Violation("campaign_error", f"{type(o.error).__name__}: {str(o.error)[-1500:]}; console {out.getvalue()[-500:]}; {case}")
    if "rror" in out.getvalue():
        raise Violation("sample_error", f"console reports {out.getvalue()[-800:]}; {case}")
    oracle(o, case, sim)
    for k in ("fault:preemptions",):
        if "preemptions" in sim.counters:
            sim.counters[k] = sim.counters.pop("preemptions")
    return dict(digest=sim.digest(), sched=sim.schedule_digest(), key=sim.schedule_digest() + repr(sorted(case.items(), key=lambda x: x[0])), counters=sim.counters, sim_time=sim.now, steps=sim.steps, nontrivial=len({e["worker"] for e in sim.samples}) > 1 or case["actors"] == 1, sample=repr(case)[:600])


def oracle(o, case, sim):
    res = o.result.evaluation_results[0]
    cells = {}
    for coords, entry, _ in res.entries:
        want = {}
        for c, d in zip(coords, res.grid):
            v = d.sample_points[c].value
            v = float(v.level) if hasattr(v, "level") else v
            name = "noise_level" if isinstance(v, float) else "middle" if v >= 10 else "late"
            want[name] = v
        for name, v in want.items():
            if entry["values"][name] != v:
                raise Violation("wrong_parameter", f"sample of section {coords} was evaluated at {name}={entry['values'][name]} instead of {v}; {case}")
        cells.setdefault(tuple(coords), []).append(entry)
    n = 1
    for _, _, pts in case["dims"]:
        n *= len(pts)
    per = case["num_samples"] * o.expected_drops
    if len(cells) != n or any(len(v) != per for v in cells.values()):
        raise Violation("wrong_count", f"sections obtained {sorted((k, len(v)) for k, v in cells.items())} samples instead of {per} each; {case}")
    overall = {}
    for coords, entries in cells.items():
        bits, rx = {}, {}
        for e in entries:
            for i, l in enumerate(e["links"]):
                if not (l["tx"] and l["rx"]):
                    raise Violation("not_notified", f"sample {e['uid']}: link {i} published transmission={l['tx']} reception={l['rx']}; {case}")
                if l["kind"] in ("rrc", "ofdm") and l["nbits"] >= 40:
                    k = (i, l["bits"])
                    if k in bits and bits[k]["uid"] != e["uid"]:
                        raise Violation("repeated_bits", f"samples {bits[k]['uid']} and {e['uid']} of section {coords} transmit identical random bits over link {i}; {case}")
                    bits[k] = e
                    other = overall.get(k)
                    if other is not None and other["worker"] != e["worker"]:
                        raise Violation("workers_correlated", f"{other['uid']} and {e['uid']} on different workers transmit identical random bits over link {i}; {case}")
                    overall[k] = e
                k = (i, "rx", l["rxsig"])
                if k in rx:
                    raise Violation("repeated_noise", f"samples {rx[k]['uid']} and {e['uid']} of section {coords} received identical noise over link {i}; {case}")
                rx[k] = e
                other = overall.get(k)
                if other is not None and other["worker"] != e["worker"]:
                    raise Violation("repeated_reception", f"{other['uid']} and {e['uid']} received identical noise over link {i}; {case}")
                overall[k] = e
                level = noise_at(case, e, i)
                if l["kind"] in ("rrc", "ofdm") and level <= 1e-9 and l["errors"] > l["nbits"] // 5:
                    raise Violation("mispaired", f"sample {e['uid']}: {l['errors']} bit errors over a clean channel on link {i}; {case}")
                if l["kind"] == "silence" and not (level * 5e5 < l["power"] < level * 2e6):
                    raise Violation("noise_power", f"sample {e['uid']} of link {i} contains noise of power {l['power']:.3g} at a noise level of {level:.3g}; {case}")


def noise_at(case, entry, link):
    level = 1e-15
    for name, owner, _ in case["dims"]:
        if name == "noise_level" and (owner < 0 or owner == case["spec"]["links"][link]["rx"]):
            level = entry["values"][name]
    return level
