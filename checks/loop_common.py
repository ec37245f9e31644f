"""Hardware loops over a physical scenario whose devices, triggers and files are simulated."""

from __future__ import annotations

import io

import numpy as np

from dst.base import Violation
from checks import scene as S

from hermespy.core import ConsoleMode, Verbosity
from hermespy.core.pymonte import Artifact, Evaluation, EvaluationResult, Evaluator, ScalarEvaluator
from hermespy.hardware_loop import HardwareLoop, IterationPriority, PhysicalScenarioDummy


class RigFailure(Exception):
    """An injected failure of the measurement bench."""


class Rig(PhysicalScenarioDummy):
    """Physical scenario reporting each trigger to the simulation, which may let it fail."""

    bench = None
    _knob = 0
    _level = 0

    @classmethod
    def serialization_tag(cls):
        # recorded states are those of the product's class
        return PhysicalScenarioDummy.serialization_tag()

    @property
    def knob(self):
        return self._knob

    @knob.setter
    def knob(self, v):
        if self.bench is not None:
            self.bench.on_configure("knob", v)
        self._knob = v

    @property
    def level(self):
        return self._level

    @level.setter
    def level(self, v):
        if self.bench is not None:
            self.bench.on_configure("level", v)
        self._level = v

    def _drop(self):
        self.bench.on_trigger(self)
        d = super()._drop()
        self.bench.on_triggered(self, d)
        return d


class Stub:
    """An object outside of the scenario whose attribute is swept."""

    def __init__(self, bench):
        self.bench, self._x = bench, 0

    @property
    def x(self):
        return self._x

    @x.setter
    def x(self, v):
        self.bench.on_configure("x", v)
        self._x = v


class SerialArtifact(Artifact):
    def __init__(self, value):
        self.value = value

    def __str__(self):
        return str(self.value)

    def to_scalar(self):
        return float(self.value)


class SerialEvaluation(Evaluation):
    def __init__(self, owner, value):
        self.owner, self.value = owner, value

    def artifact(self):
        self.owner.bench.on_artifact(self.owner.index)
        return SerialArtifact(self.value)

    def _prepare_visualization(self, *a, **k): ...

    def _update_visualization(self, *a, **k): ...


class SerialResult(EvaluationResult):
    """Keeps the artifacts of each section in the order they were added."""

    def __init__(self, grid, evaluator):
        EvaluationResult.__init__(self, grid, evaluator)
        self.entries = []

    def add_artifact(self, coordinates, artifact, compute_confidence=True):
        self.entries.append((tuple(int(c) for c in coordinates), artifact.value))
        return False

    def runtime_estimates(self):
        return None

    def to_array(self):
        out = np.zeros([d.num_sample_points for d in self.grid], dtype=float)
        for c, _ in self.entries:
            out[c] += 1
        return out

    def visualize(self, *a, **k):
        from hermespy.core import PlotVisualization

        return PlotVisualization(None, np.empty((1, 1), dtype=object), np.empty((1, 1), dtype=object))


class SerialEvaluator(Evaluator):
    def __init__(self, bench, index):
        Evaluator.__init__(self)
        self.bench, self.index = bench, index

    @property
    def abbreviation(self):
        return f"E{self.index}"

    @property
    def title(self):
        return f"Serial {self.index}"

    def evaluate(self):
        self.bench.on_evaluate(self.index)
        return SerialEvaluation(self, self.bench.serial)

    def initialize_result(self, grid):
        return SerialResult(grid, self)


class ScalarSerial(ScalarEvaluator):
    """Scalar evaluation collected by the product's own result classes."""

    def __init__(self, bench, index):
        ScalarEvaluator.__init__(self)
        self.bench, self.index = bench, index

    @property
    def abbreviation(self):
        return f"S{self.index}"

    @property
    def title(self):
        return f"Scalar {self.index}"

    def evaluate(self):
        self.bench.on_evaluate(self.index)
        return SerialEvaluation(self, 0.25 + 3 * self.bench.serial)


def text_console(width=240):
    from rich.console import Console

    out = io.StringIO()
    return Console(file=out, width=width, force_terminal=False, color_system=None, log_path=False), out
