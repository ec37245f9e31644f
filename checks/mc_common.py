"""Simulated Monte Carlo campaigns: the real engine (queue manager, collector, workers, driver) on simulated ray."""

from __future__ import annotations

import io
import re

import numpy as np

from dst import core, fakeray
from dst.base import Skip, Violation

from rich.console import Console

from hermespy.core import ConsoleMode
from hermespy.core.pymonte import (
    Artifact,
    Evaluation,
    EvaluationResult,
    Evaluator,
    GridDimension,
    MonteCarlo,
    MonteCarloActor,
    ScalarDimension,
    ScalarEvaluator,
    register,
)

STAGES = ["alpha", "beta", "gamma", "delta"]


def ctx():
    return core.CURRENT.mc


class Knob(ScalarDimension):
    def __init__(self, name):
        self.name, self.value = name, 0

    def __lshift__(self, scalar):
        ctx().on_configure(self.name, scalar)
        self.value = scalar

    @property
    def title(self):
        return self.name


class Child:
    def __init__(self):
        self._x = 0

    @property
    def x(self):
        return self._x

    @x.setter
    def x(self, v):
        ctx().on_configure("child.x", v)
        self._x = v


def _param(name, stage, last=None):
    attr = "_" + name

    def get(self):
        return getattr(self, attr)

    def set_(self, v):
        c = core.CURRENT
        if c is not None:
            c.mc.on_configure(name, v)
        setattr(self, attr, v)

    if stage is False:
        return property(get, set_)
    return register(first_impact=stage, last_impact=last)(property(get)).setter(set_)


class Plant:
    """Investigated object: remembers which parameter values each stage has been executed with."""

    PARAMS = {
        # name -> index of the first impacted stage
        "free": 0,
        "early": 0,
        "second": 1,
        "third": 2,
        "final": 3,
        "unknown": 0,
        "configure_method": 0,
        "child.x": 0,
        "knob": 0,
    }

    def __init__(self):
        self._free = self._early = self._second = self._third = self._final = self._unknown = 0
        self._method = 0
        self.child = Child()
        self._knob = Knob("knob")
        self.tokens = [None] * len(STAGES)
        self.seen = [None] * len(STAGES)
        self.counter = 0
        self.uid = 0
        self.worker = -1
        self.stage_args = [None] * len(STAGES)

    free = _param("free", False)
    early = _param("early", "alpha")
    second = _param("second", "beta")
    third = _param("third", "gamma")
    final = _param("final", "delta")
    unknown = _param("unknown", None)

    @property
    def knob(self):
        return self._knob

    def configure_method(self, v):
        ctx().on_configure("configure_method", v)
        self._method = v

    def values(self):
        return {
            "free": self._free,
            "early": self._early,
            "second": self._second,
            "third": self._third,
            "final": self._final,
            "unknown": self._unknown,
            "configure_method": self._method,
            "child.x": self.child.x,
            "knob": self._knob.value,
        }

    def execute(self, k, args):
        ctx().on_stage(self, k)
        self.counter += 1
        self.tokens[k] = (self.worker, self.counter)
        self.stage_args[k] = args
        self.seen[k] = self.values()


class PlantActor(MonteCarloActor[Plant]):
    def __init__(self, queue_manager, argument_tuple, index, *a, **k):
        argument_tuple[0].worker = index
        self.plant = argument_tuple[0]
        MonteCarloActor.__init__(self, queue_manager, argument_tuple, index, *a, **k)

    @staticmethod
    def stage_identifiers():
        return list(STAGES)

    def alpha(self, *a):
        self.plant.execute(0, a)

    def beta(self, *a):
        self.plant.execute(1, a)

    def gamma(self, *a):
        self.plant.execute(2, a)

    def delta(self, *a):
        self.plant.execute(3, a)

    def stage_executors(self):
        return [self.alpha, self.beta, self.gamma, self.delta]


class LedgerArtifact(Artifact):
    def __init__(self, entry, scalar=None):
        self.entry, self.scalar = entry, scalar

    def __str__(self):
        return str(self.entry["uid"])

    def to_scalar(self):
        return self.scalar


class LedgerEvaluation(Evaluation):
    def __init__(self, entry, scalar=None):
        self.entry, self.scalar = entry, scalar

    def artifact(self):
        return LedgerArtifact(self.entry, self.scalar)

    def _prepare_visualization(self, *a, **k): ...

    def _update_visualization(self, *a, **k): ...


class LedgerResult(EvaluationResult):
    def __init__(self, grid, evaluator):
        EvaluationResult.__init__(self, grid, evaluator)
        self.entries = []

    def add_artifact(self, coordinates, artifact, compute_confidence=True):
        s = core.CURRENT
        s.mc.processed.append((s.now, tuple(int(c) for c in coordinates), artifact.entry["uid"], bool(compute_confidence)))
        self.entries.append((tuple(int(c) for c in coordinates), artifact.entry, compute_confidence))
        return False

    def runtime_estimates(self):
        return None

    def to_array(self):
        out = np.zeros([d.num_sample_points for d in self.grid], dtype=float)
        for c, _, _ in self.entries:
            out[c] += 1
        return out


class LedgerEvaluator(Evaluator):
    """First evaluator of each campaign: assigns the sample's identity."""

    def __init__(self, plant):
        Evaluator.__init__(self)
        self.plant = plant

    @property
    def abbreviation(self):
        return "LEDGER"

    @property
    def title(self):
        return "Ledger"

    def evaluate(self):
        p = self.plant
        ctx().on_evaluate(p, 0)
        p.uid += 1
        entry = {
            "uid": (p.worker, p.uid),
            "values": p.values(),
            "tokens": tuple(p.tokens),
            "seen": [dict(s) if s is not None else None for s in p.seen],
            "args": tuple(p.stage_args),
        }
        ctx().produced.append(entry)
        ctx().produced_at.append(core.CURRENT.now)
        return LedgerEvaluation(entry)

    def initialize_result(self, grid):
        return LedgerResult(grid, self)


class ScalarProbe(ScalarEvaluator):
    def __init__(self, plant, index, none_rate=0, **k):
        ScalarEvaluator.__init__(self, **k)
        self.plant, self.index, self.none_rate = plant, index, none_rate

    @property
    def abbreviation(self):
        return f"S{self.index}"

    @property
    def title(self):
        return f"Scalar {self.index}"

    def scalar(self, entry):
        return probe_scalar(self.index, entry, self.none_rate, ctx().case)

    def evaluate(self):
        ctx().on_evaluate(self.plant, self.index)
        p = self.plant
        entry = {"uid": (p.worker, p.uid), "values": p.values(), "tokens": tuple(p.tokens)}
        return LedgerEvaluation(entry, self.scalar(entry))


def probe_scalar(index, entry, none_rate, case):
    w, u = entry["uid"]
    base = sum((i + 1) * v for i, v in enumerate(entry["values"].values()))
    if none_rate and (u * 7 + w) % none_rate == 0:
        return None
    if case.get("scalar_noise"):
        r = ((u * 2654435761 + w * 40503 + index * 97) >> 7) % 1000 / 1000.0 - 0.5
        return index * 10.0 + r * case["scalar_noise"][base % len(case["scalar_noise"])]
    return index * 1000.0 + base + ((u * 37 + w * 11) % 17) * 0.125


class InjectedFailure(Exception):
    pass


class Context:
    """Shared harness state of one run (never visible to the product)."""

    def __init__(self, sim, ch, case):
        self.sim, self.ch, self.case = sim, ch, case
        self.produced = []
        self.produced_at = []  # simulated time of each produced entry
        self.processed = []  # (time, coordinates, uid, confidence considered) in the collector's order
        self.failures = []  # injected failures (worker, where)
        self.fail_budget = case.get("failures", 0)
        self.stage_rate = case.get("stage_fail", 0.0)
        self.bad_value = case.get("bad_value")
        self.crash_rate = case.get("crash_rate", 0.0)
        self.crash_left = case.get("crashes", 0)
        self.stage_delay = case.get("stage_delay", 0.3)
        self.slow_worker = case.get("slow_worker", -1)
        self.last_activity = 0.0

    def fail(self, where):
        self.sim.count("fault:sample_exception")
        self.failures.append((self.sim.me().proc.name if self.sim.me().proc else "main", where))
        self.sim.event("FAULT", where)
        raise InjectedFailure(where)

    def maybe_crash(self, plant):
        if self.crash_left > 0 and self.ch.flag(self.crash_rate):
            self.crash_left -= 1
            proc = self.sim.me().proc
            for a in self.sim.ray.actors.values():
                if a.proc is proc:
                    self.sim.crashed.append(a.aid)
                    self.sim.ray.crash(a)
                    raise core.SimKilled()

    def on_stage(self, plant, k):
        sim = self.sim
        self.last_activity = sim.now
        self.maybe_crash(plant)
        if plant.worker == self.slow_worker:
            sim.count("fault:slow_worker")
            sim.sleep(0.02)
        elif self.ch.flag(self.stage_delay):
            sim.sleep((1 + self.ch.choose(8)) * 0.002)
        if self.fail_budget > 0 and self.ch.flag(self.stage_rate):
            self.fail_budget -= 1
            self.fail(f"stage{k}")
        bv = self.bad_value
        if bv and bv[0] == "stage" and bv[3] == k and plant.values()[bv[1]] == bv[2]:
            self.fail(f"stage{k} rejects {bv[1]}={bv[2]}")

    def on_configure(self, name, v):
        bv = self.bad_value
        me = self.sim.me()
        if me is None or me.proc is None:
            return
        if bv and bv[0] == "setter" and bv[1] == name and bv[2] == v:
            self.fail(f"setter rejects {name}={v}")

    def on_evaluate(self, plant, index):
        if self.fail_budget > 0 and self.ch.flag(self.stage_rate):
            self.fail_budget -= 1
            self.fail(f"evaluator{index}")
        bv = self.bad_value
        if bv and bv[0] == "evaluate" and plant.values()[bv[1]] == bv[2]:
            self.fail(f"evaluator rejects {bv[1]}={bv[2]}")


DIMS = ["early", "free", "second", "third", "final", "configure_method", "child.x", "knob", "unknown"]


def gen_case(ch, *, max_sections=12, max_samples=5, stage_args=True, confident=False):
    """Workload of one campaign."""
    nd = ch.choose(4, (0.2, 0.25, 0.35, 0.2))
    names = ch.shuffle(DIMS)[:nd]
    dims, total = [], 1
    for n in names:
        size = 1 + ch.choose(4)
        if total * size > max_sections:
            size = max(1, max_sections // total)
        total *= size
        dims.append((n, size))
    case = {
        "dims": dims,
        "additional": [],
        "num_samples": 1 + ch.choose(max_samples),
        "actors": 1 + ch.choose(4),
        "batch": None if ch.flag(0.5) else 1 + ch.choose(10),
        "mode": ("SILENT", "LINEAR", "INTERACTIVE")[ch.choose(3, (0.45, 0.45, 0.1))],
        "poll": (0.01, 0.05, 0.3)[ch.choose(3)],
        "evaluators": ch.choose(3),
        "stage_args": {},
        "none_rate": 0,
    }
    if dims and ch.flag(0.2):
        case["additional"] = [dims.pop(ch.choose(len(dims)))]
    if stage_args and ch.flag(0.25):
        k = ch.choose(4)
        case["stage_args"] = {k: 1 + ch.choose(3)}
    if ch.flag(0.15):
        case["none_rate"] = 2 + ch.choose(3)
    case["latency"] = (0.0, 0.1, 0.4)[ch.choose(3)]
    case["base_latency"] = (0.004, 0.002, 0.0005)[ch.choose(3, (0.4, 0.4, 0.2))]
    case["reorder"] = (0.0, 0.3)[ch.choose(2)]
    case["preempt"] = (0, 3, 12)[ch.choose(3)]
    return case


def points(name, size, salt):
    return [salt * 100 + 1 + i for i in range(size)]


class TimedIO(io.StringIO):
    """Console file remembering the simulated time of each write."""

    def __init__(self, sim):
        io.StringIO.__init__(self)
        self.sim, self.writes = sim, []

    def write(self, text):
        self.writes.append((self.sim.now, text))
        return io.StringIO.write(self, text)

    def isatty(self):
        return False


class Outcome:
    pass


def run_campaign(ch, case, scratch, *, max_steps=60_000, on_call=None):
    """Execute one campaign; returns an Outcome (never raises for errors of the campaign itself)."""
    sim = core.Sim(ch, max_steps=max_steps)
    sim.crashed = []
    o = Outcome()
    o.sim, o.case = sim, case
    out = TimedIO(sim)
    o.console_text = ""
    o.console_io = out

    def main():
        w = sim.ray = fakeray.RayWorld(sim, ch, cpus=case["actors"], reorder=case["reorder"])
        w.latency_prob = case["latency"]
        w.base_latency = case["base_latency"]
        w.on_call = on_call
        c = sim.mc = Context(sim, ch, case)
        o.ctx = c
        sim.trace_files("/hermespy/core/pymonte/", budget=case["preempt"])
        plant = Plant()
        evaluators = [LedgerEvaluator(plant)]
        for i in range(case["evaluators"]):
            kw = case.get("confidence", {}).get(i, {})
            evaluators.append(ScalarProbe(plant, i + 1, case["none_rate"] if i == 0 else 0, **kw))
        o.evaluators = evaluators
        console = Console(file=out, width=400, force_terminal=case.get("terminal", False), log_path=False, color_system=None)
        mc = MonteCarlo(
            plant,
            case["num_samples"],
            evaluators,
            batch_size=case["batch"],
            num_actors=case["actors"],
            console=console,
            console_mode=ConsoleMode[case["mode"]],
            catch_exceptions=case.get("catch", True),
            progress_log_interval=case["poll"],
        )
        o.grid_values = {}
        for i, (n, size) in enumerate(case["dims"]):
            pts = points(n, size, i + 1)
            o.grid_values[n] = pts
            mc.new_dimension(n, pts, plant)
        additional = None
        if case["additional"]:
            additional = set()
            for i, (n, size) in enumerate(case["additional"]):
                pts = points(n, size, 7 + i)
                o.grid_values[n] = pts
                additional.add(GridDimension(plant, n, pts))
        sa = None
        if case["stage_args"]:
            sa = {STAGES[k]: [(j,) for j in range(n)] for k, n in case["stage_args"].items()}
        o.started = sim.now
        try:
            o.result = mc.simulate(PlantActor, additional, sa)
            o.error = None
        except (core.Deadlock, core.StepLimit):
            raise
        except Exception as e:
            o.result, o.error = None, e
        o.finished = sim.now
        if o.result is not None and case.get("matlab"):
            import os

            o.matfile = os.path.join(scratch, "r.mat")
            try:
                o.result.save_to_matlab(o.matfile)
                o.mat_error = None
            except Exception as e:
                o.mat_error = e
        if o.result is not None and case.get("print"):
            pout = io.StringIO()
            o.result.print(Console(file=pout, width=400, color_system=None))
            o.printed = pout.getvalue()
        sim.event("end", "error" if o.error is not None else "ok")

    try:
        o.no_progress = None
        sim.run(main)
    except (core.Deadlock, core.StepLimit) as e:
        o.no_progress = e
    o.console_text = out.getvalue()
    return o


def info(o, nontrivial=True, **extra):
    sim = o.sim
    return {
        "digest": sim.digest(),
        "sched": sim.schedule_digest(),
        "key": sim.schedule_digest() + repr(sorted(o.case.items(), key=lambda x: x[0])),
        "counters": sim.counters,
        "sim_time": sim.now,
        "steps": sim.steps,
        "nontrivial": nontrivial,
        "sample": {"case": o.case, "schedule": sim.schedule_digest(), "steps": sim.steps, **extra},
    }


def dims_of(o):
    return list(o.case["dims"]) + list(o.case["additional"])


def cells(o):
    """Expected number of samples, as {frozenset of (parameter, value)}."""
    names = list(o.grid_values)
    import itertools

    for combo in itertools.product(*[o.grid_values[n] for n in names]):
        yield dict(zip(names, combo))


def entry_cell(o, entry):
    return {n: entry["values"][n] for n in o.grid_values}


def ledger(o):
    res = o.result.evaluation_results[0]
    return res, res.entries


def args_product(case):
    p = 1
    for n in case["stage_args"].values():
        p *= n
    return p
