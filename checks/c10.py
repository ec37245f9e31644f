"""C10: a hardware loop performs exactly the configured measurement, whatever fails or interrupts it."""

PROPERTY = "C10"
LEVEL = "exploration"
QUICK_RUNS = 200
THOROUGH_RUNS = 16000
RUN_TIMEOUT = 90

import errno
import hashlib
import os
import signal as osignal

import numpy as np

from dst import core, fakeh5, sig
from dst.base import Violation
from checks import rec_common as R
from checks import scene as S
from checks import loop_common as L


def prepare():
    R.warm()


class Bench:
    """Everything the loop does to the outside, in order, and the plan of what goes wrong when."""

    def __init__(self, ch, case, sim, table):
        self.ch, self.case, self.sim, self.table = ch, case, sim, table
        self.log = []  # (kind, payload)
        self.values = {}  # parameters in force as seen by the swept objects
        self.serial = -1  # number of the latest drop
        self.attempt = 0
        self.plan = {}  # (kind, index, attempt number) -> failure class
        self.seen = {}
        self.failures = []
        self.delivered = []  # position in the log of each delivered interrupt
        self.interrupt_at = None  # (kind, occurrence)
        self.drops = {}
        self.wrong = None
        self.counters = {}

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def step(self, kind, payload=None):
        self.log.append((kind, payload))
        n = self.seen[kind] = self.seen.get(kind, -1) + 1
        if self.interrupt_at == (kind, n):
            self.interrupt("in_" + kind)
        f = self.plan.get((kind, n))
        if f is not None:
            self.failures.append((len(self.log) - 1, kind, n))
            self.count("fault:failing_" + kind)
            raise f

    def interrupt(self, where):
        self.delivered.append((len(self.log), where))
        self.count("fault:interrupt_" + where)
        self.table.deliver(osignal.SIGINT, None)

    def on_configure(self, name, v):
        self.values[name] = v
        self.step("configure", (name, v))

    def on_trigger(self, rig):
        self.step("trigger", dict(self.values))

    def on_triggered(self, rig, drop):
        self.serial += 1
        self.drops[self.serial] = drop
        self.step("triggered", self.serial)

    def on_evaluate(self, i):
        self.step("evaluate", i)

    def on_artifact(self, i):
        self.step("artifact", i)


def forget(e):
    """The exception without the frames it passed, which keep files alive."""
    x = e
    while x is not None:
        x.__traceback__ = None
        x = x.__cause__ or x.__context__
    return e


def gen(ch):
    dims = []
    for name in ("knob", "x", "level"):
        if ch.flag(0.45):
            dims.append((name, 1 + ch.choose(3)))
    total = int(np.prod([n for _, n in dims])) if dims else 1
    case = dict(
        dims=dims,
        default_object=ch.flag(0.5),
        drops=1 + ch.choose(3 if total < 6 else 2),
        priority=("DROPS", "GRID")[ch.choose(2)],
        console=("SILENT", "LINEAR", "INTERACTIVE")[ch.choose(3)],
        verbosity=("ALL", "INFO", "WARNING", "NONE")[ch.choose(4)],
        pre=ch.choose(3),
        post=ch.choose(3),
        evaluators=ch.choose(3),
        scalar=ch.flag(0.6),
        real=ch.flag(0.4),
        record=ch.flag(0.6),
        results=ch.flag(0.6),
        debug=ch.flag(0.25),
        campaign=(None, "c1")[ch.choose(2)],
        overwrite=not ch.flag(0.2),
        runs=1 + ch.flag(0.3),
        preempt=(0, 6)[ch.choose(2)],
        fail=(0.0, 0.0, 0.04, 0.2)[ch.choose(4)],
        disk=ch.flag(0.2),
        interrupt=ch.choose(4, (5, 2, 2, 1)),
    )
    return case


def points(name, n):
    return {"knob": [5, 6, 7], "x": [0.5, 0.25, 4.0], "level": [1, 3, 2]}[name][:n]


def run(ch, scratch):
    R.close_all()
    case = gen(ch)
    spec = S.gen_spec(ch, max_devices=2, channels=("ideal", "delay"), kinds=("sig", "rrc"))
    if ch.flag(0.5):
        spec["links"] = spec["links"][:1] + [l for l in spec["links"][1:] if l["kind"] == "sig"]
        for i in range(spec["devices"]):
            if all(l["tx"] != i for l in spec["links"]):
                spec["links"].append(dict(kind="sig", tx=i, rx=i, var=0))
    sim = core.Sim(ch, max_steps=200_000)
    out = {}

    def main():
        with sig.SignalTable() as table, fakeh5.Disk() as disk:
            out.update(session(ch, scratch, sim, table, disk, case, spec))

    sim.run(main)
    c = out["counters"]
    for k, v in sim.counters.items():
        c[k] = c.get(k, 0) + v
    return dict(digest=out["digest"], sched=out["digest"], key=out["key"], counters=c, sim_time=sim.now, steps=sim.steps, nontrivial=out["nontrivial"], sample=out["sample"])


def session(ch, scratch, sim, table, disk, case, spec):
    from hermespy.core import ConsoleMode, GridDimension, ScenarioMode, Verbosity
    from hermespy.hardware_loop import HardwareLoop, IterationPriority

    counters, trace, digests = {}, [], []
    where = f"case={case} spec={spec}"
    rig = L.Rig(seed=spec["seed"])
    sc = S.build(spec, scenario=rig)
    b = Bench(ch, case, sim, table)
    rig.bench = b
    console, text = L.text_console()
    results_dir = None
    if case["results"]:
        results_dir = os.path.join(scratch, "results")
        os.makedirs(results_dir)
    loop = HardwareLoop(
        rig,
        num_drops=case["drops"],
        plot_information=ch.flag(0.5),
        record_drops=case["record"],
        iteration_priority=IterationPriority[case["priority"]],
        results_dir=results_dir,
        console=console,
        console_mode=ConsoleMode[case["console"]],
        verbosity=Verbosity[case["verbosity"]],
        debug=case["debug"],
    )
    stub = L.Stub(b)
    for name, n in case["dims"]:
        if name == "x":
            loop.new_dimension("x", points(name, n), stub)
        elif case["default_object"]:
            loop.new_dimension(name, points(name, n))
        else:
            loop.add_dimension(GridDimension(rig, name, points(name, n)))
    evaluators = [L.SerialEvaluator(b, i) for i in range(case["evaluators"])]
    if case["scalar"]:
        evaluators.append(L.ScalarSerial(b, len(evaluators)))
    real = None
    if case["real"]:
        from hermespy.modem import BitErrorEvaluator

        for k, link in enumerate(spec["links"]):
            if link["kind"] == "rrc":
                real = BitErrorEvaluator(sc.tx_ops[k], sc.rx_ops[k])
                evaluators.append(real)
                break
    for e in evaluators:
        loop.add_evaluator(e)
    samples = []

    def pre(i):
        def hook(scenario, con):
            if scenario is not rig or con is not console:
                b.wrong = Violation("hook_arguments", f"pre-drop hook got {scenario!r}, {con!r}; {where}")
            b.step("pre", i)

        return hook

    def post(i):
        def hook(sample, scenario, con):
            if scenario is not rig or con is not console:
                b.wrong = Violation("hook_arguments", f"post-drop hook got {scenario!r}, {con!r}; {where}")
            samples.append((len(b.log), i, sample))
            b.step("post", (i, [k for k, v in b.drops.items() if v is sample.drop]))

        return hook

    for i in range(case["pre"]):
        loop.add_pre_drop_hook(pre(i))
    for i in range(case["post"]):
        loop.add_post_drop_hook(post(i))

    cells = [()]
    for name, n in case["dims"]:
        cells = [c + (k,) for c in cells for k in range(n)]
    if case["priority"] == "DROPS":
        order = [c for c in cells for _ in range(case["drops"])]
    else:
        order = [c for _ in range(case["drops"]) for c in cells]
    original = table.get(osignal.SIGINT)
    recorded = []  # snapshots of the drops in the file, in order
    file_tainted = False
    recorded_sessions = 0
    nontrivial = False

    for k in range(case["runs"]):
        b.log.clear()
        b.seen.clear()
        b.plan.clear()
        b.failures.clear()
        b.delivered.clear()
        b.drops.clear()
        samples.clear()
        first_serial = b.serial + 1
        text.truncate(0)
        text.seek(0)
        # plan what goes wrong
        if case["fail"]:
            for kind in ("pre", "configure", "trigger", "triggered", "evaluate", "artifact", "post"):
                for n in range(len(order) * 2):
                    if ch.flag(case["fail"] / 2):
                        b.plan[(kind, n)] = (L.RigFailure, RuntimeError, OSError, ValueError)[ch.choose(4)](f"injected {kind} {n}")
        b.interrupt_at = None
        preempt_left = [0]
        if case["interrupt"] in (1, 3):
            b.interrupt_at = (("pre", "configure", "trigger", "triggered", "evaluate", "artifact", "post")[ch.choose(7)], ch.choose(len(order)))
        if case["interrupt"] in (2, 3) and case["preempt"]:
            preempt_left[0] = 1

        def on_resume(me, frame):
            # an interrupt between two instructions of the loop, once its handler is installed
            if me.tid == 0 and preempt_left[0] and table.get(osignal.SIGINT) is not original:
                preempt_left[0] -= 1
                b.interrupt("between_instructions")
            return True

        will_record = bool(results_dir) and case["record"]
        disk.fired.clear()
        if case["disk"] and will_record:
            kind = ch.choose(3)
            if kind == 0:
                disk.faults[disk.writes + ch.choose(120)] = (errno.ENOSPC, errno.EIO)[ch.choose(2)]
            else:
                disk.op_faults[disk.ops + ch.choose(600)] = (MemoryError, RuntimeError)[ch.choose(2)]
        error = result = None
        sim.on_resume = on_resume
        if case["preempt"]:
            sim.trace_files("/hermespy/hardware_loop/hardware_loop.py", budget=case["preempt"])
        try:
            result = loop.run(overwrite=case["overwrite"] or k == 0 or file_tainted, campaign=case["campaign"] or (None if k == 0 or case["overwrite"] else None), serialize_state=ch.flag(0.7))
        except (core.Deadlock, core.StepLimit, Violation):
            raise
        except BaseException as e:
            error = forget(e)
        finally:
            sim.trace_files(budget=0)
            sim.on_resume = None
        disk_failed = sum(disk.fired.values())
        disk.faults.clear()
        disk.op_faults.clear()
        disk.full_until = None
        for f, v in disk.fired.items():
            counters["fault:" + f] = counters.get("fault:" + f, 0) + v
        log = list(b.log)
        trace.append([x[0] for x in log])
        if b.wrong is not None:
            raise b.wrong
        here = f"run {k}: failures={b.failures} interrupts={b.delivered} disk={dict(disk.fired)} error={error!r} log={log}; {where}"
        if table.get(osignal.SIGINT) != original:
            raise Violation("interrupt_handler_left", f"the interrupt handler is {table.get(osignal.SIGINT)!r} after the run; {here}")
        if rig.mode != ScenarioMode.DEFAULT:
            raise Violation("mode", f"the scenario is left in mode {rig.mode.name}; {here}")
        if R.open_handles():
            raise Violation("file_left_open", f"the recording is still open after the run; {here}")
        if any(t.state != "done" for t in sim.tasks[1:]):
            raise Violation("threads_left", f"{[t.name for t in sim.tasks[1:] if t.state != 'done']}; {here}")

        # the reference model: replays the log of what reached the outside
        done, lost, entries, aborted = model(case, order, log, b, evaluators, here, samples, disk_failed)
        counters["probe:drops"] = counters.get("probe:drops", 0) + len(done)
        nontrivial |= len(done) > 1 or bool(b.failures) or bool(b.delivered)
        if case["debug"] and b.failures:
            first = b.plan[b.failures[0][1:]]
            if error is not first:
                raise Violation("debug_not_raised", f"debug mode, expected {first!r}; {here}")
        elif error is not None:
            if not disk_failed:
                raise Violation("run_failed", f"{type(error).__name__}: {str(error)[:300]}; {here}")
            if not isinstance(error, (OSError, MemoryError, RuntimeError)):
                raise Violation("run_failed", f"{type(error).__name__}: {str(error)[:300]}; {here}")
        else:
            if b.delivered:
                if len(done) + len(lost) < len(order):
                    counters["probe:interrupted_early"] = counters.get("probe:interrupted_early", 0) + 1
            elif len(done) + len(lost) != len(order):
                raise Violation("incomplete", f"{len(done) + len(lost)} of {len(order)} drops attempted; {here}")
            # reported
            if case["console"] != "SILENT" and case["verbosity"] != "NONE":
                for _, kind, n in b.failures:
                    if f"injected {kind} {n}" not in text.getvalue():
                        raise Violation("unreported", f"the failure of {kind} {n} is not reported; {here}")
        if result is not None:
            check_result(case, loop, result, evaluators, entries, samples, done, real, results_dir, here)
        if will_record:
            if case["overwrite"] or k == 0 or file_tainted:
                recorded = []
            if disk_failed:
                file_tainted = True
            else:
                file_tainted = False if (case["overwrite"] or k == 0) else file_tainted
            recorded = recorded + [S.drop(b.drops[s]) for s in sorted(b.drops) if not any(x[0] == "triggered_failed" and x[1] == s for x in lost)]
            recorded_sessions += 1
        digests += [S.digest(S.drop(d)) for d in b.drops.values()] if will_record else [len(b.drops)]

    if results_dir and case["record"] and not file_tainted and recorded:
        replayed(ch, scratch, spec, case, results_dir, recorded, order, where, table, original, counters)
    for k, v in b.counters.items():
        counters[k] = counters.get(k, 0) + v
    h = hashlib.blake2b(repr((trace, digests)).encode(), digest_size=8).hexdigest()
    return dict(digest=h, key=repr((case["dims"], case["drops"], trace)), counters=counters, nontrivial=nontrivial, sample=[case["dims"], case["drops"], case["priority"], trace[0][:30]])


def model(case, order, log, b, evaluators, here, samples, disk_failed):
    """Consumes the log iteration by iteration. Returns done drops, lost attempts and expected result entries."""
    own = [e for e in evaluators if hasattr(e, "bench")]
    fails = {i for i, _, _ in b.failures}
    pos, done, lost, entries = 0, [], [], []
    interrupts = sorted(b.delivered)

    def take(kind):
        nonlocal pos
        if pos >= len(log):
            return None
        if log[pos][0] != kind:
            raise Violation("order", f"expected {kind}, but {log[pos]} at {pos}; {here}")
        pos += 1
        return log[pos - 1]

    for n, cell in enumerate(order):
        start = pos
        if pos >= len(log):
            break  # whether ending here is legitimate is decided by the caller
        # between the instructions of the loop, the interrupt may arrive right after the loop considered it
        if any(i < start or i == start and w != "between_instructions" for i, w in interrupts):
            raise Violation("continued_after_interrupt", f"drop {n} was attempted although the interrupt arrived before; {here}")
        status = "done"
        for i in range(case["pre"]):
            x = take("pre")
            if x is None or x[1] != i:
                raise Violation("pre_hooks", f"drop {n}: pre-drop hook {i} was not called; {here}")
            if pos - 1 in fails:
                status = "pre"
                break
        if status == "done":
            while pos < len(log) and log[pos][0] == "configure":
                pos += 1
                if pos - 1 in fails:
                    status = "configure"
                    break
        if status == "done":
            x = take("trigger")
            if x is None:
                raise Violation("not_triggered", f"drop {n} was not triggered; {here}")
            for (name, _), idx in zip(case["dims"], cell):
                want = L_points(case, name)[idx]
                if x[1].get(name) != want:
                    raise Violation("wrong_parameters", f"drop {n} belongs to {cell} but {name}={x[1].get(name)} instead of {want}; {here}")
            if pos - 1 in fails:
                status = "trigger"
        serial = None
        if status == "done":
            x = take("triggered")
            serial = x[1]
            if pos - 1 in fails:
                status = "triggered"
                lost.append(("triggered_failed", serial))
        if status == "done":
            # a failure to record the drop may end the iteration here
            if own and disk_failed and (pos >= len(log) or log[pos][0] != "evaluate"):
                status = "record"
            else:
                ev, ar = [], []
                while pos < len(log) and log[pos][0] in ("evaluate", "artifact"):
                    (ev if log[pos][0] == "evaluate" else ar).append(log[pos][1])
                    pos += 1
                    if pos - 1 in fails:
                        status = log[pos - 1][0]
                        break
                want = [e.index for e in own]
                if ev != want[: len(ev)] or ar != want[: len(ar)]:
                    raise Violation("not_evaluated", f"drop {n}: evaluated {ev}, artifacts {ar} instead of {want} each; {here}")
                if status == "done" and (ev != want or ar != want):
                    raise Violation("not_evaluated", f"drop {n}: evaluated {ev}, artifacts {ar} instead of {want} each; {here}")
        if status == "done":
            if not own and disk_failed and case["post"] and (pos >= len(log) or log[pos][0] != "post"):
                status = "record"
            else:
                entries.append((cell, serial))
                for i in range(case["post"]):
                    x = take("post")
                    if x is None or x[1][0] != i:
                        raise Violation("post_hooks", f"drop {n}: post-drop hook {i} was not called; {here}")
                    if x[1][1] != [serial]:
                        raise Violation("post_hooks", f"drop {n}: post-drop hook {i} was called with drop {x[1][1]} instead of {serial}; {here}")
                    if pos - 1 in fails:
                        status = "post"
                        break
        if status == "done" or status == "post":
            done.append((cell, serial))
        elif status == "record":
            lost.append(("record", serial))
        elif status != "triggered":
            lost.append((status, None))
        if status not in ("done", "record") and case["debug"]:
            if pos < len(log):
                raise Violation("continued_after_failure", f"drop {n + 1} was attempted after the failure in debug mode; {here}")
            return done, lost, entries, True
    if pos < len(log):
        raise Violation("too_many", f"{log[pos:]} beyond the configured drops; {here}")
    return done, lost, entries, False


def L_points(case, name):
    return points(name, dict(case["dims"])[name])


def check_result(case, loop, result, evaluators, entries, samples, done, real, results_dir, here):
    import scipy.io

    res = result.evaluation_results
    if len(res) != len(evaluators):
        raise Violation("results", f"{len(res)} results of {len(evaluators)} evaluators; {here}")
    shape = tuple(n for _, n in case["dims"])
    by_cell = {}
    for c, s in entries:
        by_cell.setdefault(c, []).append(s)
    for e, r in zip(evaluators, res):
        if isinstance(e, L.SerialEvaluator):
            if r.entries != [(c, s) for c, s in entries]:
                raise Violation("results", f"{e.title} collected {r.entries}, expected {entries}; {here}")
        elif isinstance(e, L.ScalarSerial):
            a = np.asarray(r.to_array())
            want = np.full(shape, np.nan)
            for c, ss in by_cell.items():
                want[c] = np.mean([0.25 + 3 * s for s in ss])
            have = a.reshape(shape) if a.size == want.size else a
            for c, ss in by_cell.items():
                if not np.isclose(have[c], want[c], rtol=1e-12, atol=0):
                    raise Violation("results", f"{e.title}: {have[c]} in {c}, expected {want[c]} of drops {ss}; {here}")
    if case["post"]:
        for _, i, s in samples:
            if len(s.artifacts) != len(evaluators) or len(s.evaluations) != len(evaluators):
                raise Violation("sample", f"sample carries {len(s.artifacts)} artifacts of {len(evaluators)} evaluators; {here}")
    if results_dir:
        path = os.path.join(results_dir, "results.mat")
        if not os.path.exists(path):
            raise Violation("results_not_saved", f"{here}")
        mat = scipy.io.loadmat(path)
        for i, r in enumerate(res):
            have, want = np.ravel(mat[f"result_{i}"]), np.ravel(np.asarray(r.to_array(), dtype=complex if np.iscomplexobj(r.to_array()) else float))
            if have.shape != want.shape or not np.array_equal(have, want, equal_nan=True):
                raise Violation("results_not_saved", f"saved {have} instead of {want}; {here}")


def replayed(ch, scratch, spec, case, results_dir, recorded, order, where, table, original, counters):
    """A fresh loop replays the recording: every recorded drop exactly once, in order, evaluated like a live one."""
    from hermespy.core import ConsoleMode, ScenarioMode
    from hermespy.hardware_loop import HardwareLoop

    rig = L.Rig(seed=spec["seed"] + 1)
    S.build(spec, scenario=rig)
    console, _ = L.text_console()
    loop = HardwareLoop(rig, num_drops=len(recorded), plot_information=False, console=console, console_mode=ConsoleMode.SILENT, debug=True)
    seen, calls = [], []
    b = Bench(ch, case, None, table)
    rig.bench = b
    ev = L.SerialEvaluator(b, 0)
    loop.add_evaluator(ev)
    loop.add_pre_drop_hook(lambda s, c: calls.append("pre"))
    loop.add_post_drop_hook(lambda sample, s, c: (calls.append("post"), seen.append(S.drop(sample.drop))))
    path = os.path.join(results_dir, "drops.h5")
    if case["campaign"] is None:
        try:
            loop.replay(path)
        except Exception as e:
            raise Violation("replay_failed", f"{type(e).__name__}: {str(e)[:300]} after {len(seen)} of {len(recorded)} drops; {where}")
        if calls != ["pre", "post"] * len(recorded):
            raise Violation("replay_hooks", f"{calls}; {where}")
        if any(x[0] == "trigger" for x in b.log):
            raise Violation("replay_triggered", f"the hardware was triggered during the replay; {where}")
        if [x[0] for x in b.log] != ["evaluate", "artifact"] * len(recorded):
            raise Violation("replay_evaluations", f"{b.log}; {where}")
    else:
        n = rig.replay(path, case["campaign"])
        if n != len(recorded):
            raise Violation("replay_count", f"{n} drops announced, {len(recorded)} were recorded; {where}")
        for _ in range(n):
            seen.append(S.drop(rig.drop()))
        rig.stop()
    if rig.mode != ScenarioMode.DEFAULT or R.open_handles():
        raise Violation("mode", f"the scenario is in mode {rig.mode.name} after the replay; {where}")
    if table.get(osignal.SIGINT) != original:
        raise Violation("interrupt_handler_left", f"after replay; {where}")
    if len(seen) != len(recorded):
        raise Violation("replay_count", f"{len(seen)} drops replayed, {len(recorded)} were recorded; {where}")
    for i, (a, c) in enumerate(zip(recorded, seen)):
        d = S.diff(a, c)
        if d:
            raise Violation("replay_differs", f"drop {i}: {d}; {where}")
    counters["probe:replayed_drops"] = counters.get("probe:replayed_drops", 0) + len(seen)
