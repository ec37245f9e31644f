"""C12: live plots observe a hardware loop, they neither disturb it nor lag behind it."""

PROPERTY = "C12"
LEVEL = "exploration"
QUICK_RUNS = 150
THOROUGH_RUNS = 9000
RUN_TIMEOUT = 120

import hashlib
import time
import warnings

import matplotlib as mpl
import matplotlib.pyplot as plt
import numpy as np

from dst import core, sig
from dst.base import Violation
from checks import rec_common as R
from checks import scene as S
from checks import loop_common as L


class PlotFailure(Exception):
    pass


def prepare():
    R.warm()
    plt.close(plt.subplots(1, 1)[0])


def make_probe(bench, spec):
    from hermespy.hardware_loop import HardwareLoopPlot

    class ProbePlot(HardwareLoopPlot):
        """Takes simulated time for drawing, may fail, remembers what it was asked to draw."""

        def __init__(self, index):
            HardwareLoopPlot.__init__(self, f"probe {index}")
            self.index, self.cfg = index, spec
            self.shown = []  # (time begun, time done, serial)
            self.prepared_at = None
            self.failed_at = None

        @property
        def _default_title(self):
            return "probe"

        def _prepare_plot(self):
            bench.sim.event("prepare", self.index)
            if spec["prepare"]:
                time.sleep(spec["prepare"])
            if spec["fail"] == "prepare":
                self.failed_at = bench.sim.now
                raise PlotFailure("prepare")
            r = plt.subplots(1, 1, squeeze=False)
            self.prepared_at = bench.sim.now
            return r

        def draw(self, sample, kind):
            t = bench.sim.now
            if sample is None:
                raise Violation("plotted_nothing", f"plot {self.index} was asked to draw {sample!r}")
            k = next((k for k, v in bench.drops.items() if v is sample.drop), None)
            if spec["draw"]:
                time.sleep(spec["draw"])
            if spec["fail"] == "draw" and len(self.shown) >= spec["fail_at"]:
                self.failed_at = bench.sim.now
                raise PlotFailure("draw")
            self.shown.append((t, bench.sim.now, k))
            bench.sim.event("shown", self.index, k)
            return plt.Line2D([0], [0])

        def _initial_plot(self, sample, axes):
            return self.draw(sample, "initial")

        def _update_plot(self, sample, visualization):
            self.draw(sample, "update")

    return ProbePlot


class Bench:
    def __init__(self, sim):
        self.sim = sim
        self.drops, self.snaps, self.values = {}, {}, {}
        self.serial = -1
        self.attempts = 0
        self.drop_time = 0.0
        self.fail = set()
        self.evaluated = {}

    def on_configure(self, name, v): ...

    def on_trigger(self, rig):
        self.attempts += 1
        if self.drop_time:
            time.sleep(self.drop_time)
        if self.attempts - 1 in self.fail:
            raise L.RigFailure("no signal")

    def on_triggered(self, rig, d):
        self.serial += 1
        self.drops[self.serial] = d
        self.snaps[self.serial] = S.drop(d)
        self.sim.event("drop", self.serial)

    def on_evaluate(self, i): ...

    def on_artifact(self, i): ...


def run(ch, scratch):
    R.close_all()
    plt.close("all")
    sim = core.Sim(ch, max_steps=60_000)
    out = {}
    state = dict(rc=dict(mpl.rcParams), filters=list(warnings.filters), interactive=mpl.is_interactive())
    try:
        sim.run(lambda: out.update(session(ch, sim, state)))
    finally:
        plt.close("all")
        mpl.rcParams.update({k: v for k, v in state["rc"].items() if k != "backend"})
        warnings.filters[:] = state["filters"]
    c = out["counters"]
    for k, v in sim.counters.items():
        c[k] = c.get(k, 0) + v
    return dict(digest=sim.digest(), sched=sim.schedule_digest(), key=sim.digest() + repr(out["sample"]), counters=c, sim_time=sim.now, steps=sim.steps, nontrivial=out["nontrivial"], sample=out["sample"])


KINDS = ("device_tx", "device_rx", "dsp_tx", "dsp_rx", "tx_const", "rx_const", "eye", "range", "range_velocity", "artifact", "evaluation")


def session(ch, sim, state):
    from hermespy.core import ConsoleMode, Verbosity
    from hermespy.hardware_loop import HardwareLoop
    import hermespy.hardware_loop as H
    from hermespy.hardware_loop.visualizers import RadarRangeVelocityPlot

    counters = {}

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    with sig.SignalTable():
        spec = S.gen_spec(ch, max_devices=2, channels=("ideal", "delay"), kinds=("sig", "rrc", "radar"))
        case = dict(
            drops=1 + ch.choose(5),
            drop_time=(0.0, 0.01, 0.4, 2.0)[ch.choose(4)],
            idle=(4.0, 0.0, 0.3)[ch.choose(3, (4, 3, 2))],
            fail=(0.0, 0.0, 0.3, 1.0)[ch.choose(4, (4, 4, 3, 1))],
            preempt=(0, 4, 16)[ch.choose(3)],
            ion=ch.flag(0.15),
            mixed=ch.flag(0.5),
        )
        # in a mixed run, samples arrive in bursts with breaks between them
        case["idle"] = [(0.0, 0.1, 0.3, 4.0)[ch.choose(4, (2, 3, 3, 4))] for _ in range(2 * case["drops"])] if case.pop("mixed") else [case["idle"]] * (2 * case["drops"])
        pauses = iter(case["idle"])
        b = Bench(sim)
        b.drop_time = case["drop_time"]
        for n in range(case["drops"]):
            if case["fail"] and ch.flag(case["fail"]):
                b.fail.add(n)
        rig = L.Rig(seed=spec["seed"])
        rig.bench = b
        sc = S.build(spec, scenario=rig)
        console, text = L.text_console()
        loop = HardwareLoop(rig, num_drops=case["drops"], plot_information=True, record_drops=False, console=console, console_mode=ConsoleMode.LINEAR, verbosity=Verbosity.ALL)
        ev = L.ScalarSerial(b, 0)
        loop.add_evaluator(ev)
        plots, reals = [], []
        for i in range(1 + ch.choose(4)):
            if ch.flag(0.45):
                cfg = dict(prepare=(0.0, 0.02, 1.5)[ch.choose(3)], draw=(0.0, 0.05, 0.7)[ch.choose(3)], fail=("no", "prepare", "draw")[ch.choose(3, (6, 1, 2))], fail_at=ch.choose(3))
                p = make_probe(b, cfg)(i)
                plots.append(p)
            else:
                p = real_plot(H, RadarRangeVelocityPlot, KINDS[ch.choose(len(KINDS))], sc, spec, ev, i, ch)
                if p is None:
                    continue
                reals.append(p)
                if "evaluator" in p:
                    loop.add_evaluator(p["evaluator"])
                p = p["plot"]
            loop.add_plot(p)
        where = f"case={case} failing drops={sorted(b.fail)} probes={[p.cfg for p in plots]} real={[r['kind'] for r in reals]} spec={spec}"
        offers = []  # (time, serial) when the loop has handed the sample to the plots
        last = [0.0]

        def pre(scenario, con):
            offers.append((sim.now, None))
            pause = next(pauses)
            if pause:
                time.sleep(pause)

        raised = []  # by the hooks, the loop itself contains them

        def post(sample, scenario, con):
            try:
                post_body(sample)
            except Exception as e:
                raised.append(e)
                raise

        def post_body(sample):
            k = next(k for k, v in b.drops.items() if v is sample.drop)
            offers.append((sim.now, k))
            pause = next(pauses)
            last[0] = pause
            if pause:
                time.sleep(pause)
            if pause > 2:
                for r in reals:
                    check_real(r, k, sample, b, where)
                    count("probe:figures_compared")
                    count("probe:figures_" + r["kind"])

        loop.add_pre_drop_hook(pre)
        loop.add_post_drop_hook(post)
        if case["ion"]:
            mpl.interactive(True)
        rc_before = {k: v for k, v in mpl.rcParams.items() if k != "backend"}
        if case["preempt"]:
            sim.trace_files("/hermespy/hardware_loop/hardware_loop.py", budget=case["preempt"])
        try:
            result = loop.run()
        except (core.Deadlock, core.StepLimit, Violation):
            raise
        except Exception as e:
            raise Violation("run_failed", f"{type(e).__name__}: {str(e)[:300]}; {where}")
        finally:
            sim.trace_files(budget=0)
        offers.append((sim.now, None))
        if raised:
            raise raised[0]
        failures = getattr(sim, "thread_failures", [])
        here = f"shown={[p.shown for p in plots]} offers={offers} thread failures={[(n, repr(e)[:80]) for n, e, _ in failures]}; {where}"
        for _, e, tb in failures:
            if isinstance(e, Violation):
                raise e
            if not isinstance(e, PlotFailure):
                raise Violation("plot_thread_died", f"{tb[-1200:]}; {where}")
        # the loop is not impaired
        good = case["drops"] - len(b.fail)
        if b.attempts != case["drops"] or b.serial + 1 != good:
            raise Violation("incomplete", f"{b.attempts} drops of {case['drops']}; {here}")
        a = np.ravel(result.evaluation_results[0].to_array())
        if good and not np.isclose(a[0], np.mean([0.25 + 3 * k for k in range(good)]), rtol=1e-12):
            raise Violation("results", f"{a}; {here}")
        for k, d in b.drops.items():
            r = S.diff(b.snaps[k], S.drop(d))
            if r:
                raise Violation("measurement_altered", f"drop {k} was altered while it was plotted: {r}; {here}")
        # nothing is left behind
        left = [t.name for t in sim.tasks[1:] if t.state != "done"]
        if left:
            raise Violation("threads_left", f"{left}; {here}")
        if plt.get_fignums():
            raise Violation("figures_left", f"{[plt.figure(n).get_suptitle() for n in plt.get_fignums()]}; {here}")
        changed = [k for k, v in rc_before.items() if mpl.rcParams[k] != v]
        if changed:
            raise Violation("style_left", f"{[(k, rc_before[k], mpl.rcParams[k]) for k in changed[:3]]}; {here}")
        if list(warnings.filters) != state["filters"]:
            raise Violation("warning_filters_left", f"{warnings.filters[:2]} instead of {state['filters'][:2]}; {here}")
        shown = 0
        for p in plots:
            ks = [k for _, _, k in p.shown]
            if None in ks:
                raise Violation("plotted_unknown", f"plot {p.index}; {here}")
            if any(x >= y for x, y in zip(ks, ks[1:])):
                raise Violation("plotted_out_of_order", f"plot {p.index} shows {ks}; {here}")
            shown += len(ks)
            if p.prepared_at is None and p.failed_at is None and good:
                raise Violation("never_prepared", f"plot {p.index}; {here}")
            # whenever the loop idles, the latest sample is displayed in bounded time
            for (t, k), (t2, _) in zip(offers, offers[1:]):
                if k is None:
                    continue
                if (t2, None) == offers[-1]:
                    t2 = t + last[0]  # the plots are stopped after the final drop
                bound = max(t, p.prepared_at or 0.0) + 2 * p.cfg["draw"] + 1.2
                if p.failed_at is not None and p.failed_at <= bound or p.prepared_at is None:
                    continue
                if t2 > bound and not any(begun <= bound and x >= k for begun, _, x in p.shown):
                    raise Violation("stale_plot", f"plot {p.index} did not show drop {k} offered at {t:.3f} until {bound:.3f} although the loop was idle until {t2:.3f}; {here}")
            if p.failed_at is not None:
                count("fault:failing_plot")
            if p.cfg["draw"] >= 0.7 or p.cfg["prepare"] > 1:
                count("fault:slow_plot")
        count("fault:failing_drop", len(b.fail))
        count("probe:samples_shown", shown)
        count("probe:real_plots", len(reals))
        return dict(counters=counters, nontrivial=bool(shown or counters.get("probe:figures_compared")), sample=[case, [p.cfg for p in plots], [r["kind"] for r in reals]])


def real_plot(H, RV, kind, sc, spec, ev, i, ch):
    """One of the product's own visualizers together with what it has to show."""
    from hermespy.modem import BitErrorEvaluator

    r = dict(kind=kind)
    title = f"real {i}"
    dev = ch.choose(spec["devices"])
    space = ("time", "frequency", "both")[ch.choose(3)]
    rrc = [k for k, l in enumerate(spec["links"]) if l["kind"] == "rrc"]
    radar = [k for k, l in enumerate(spec["links"]) if l["kind"] == "radar"]
    if kind == "device_tx":
        r["plot"] = H.DeviceTransmissionPlot(sc.devices[dev], title, space=space)
        r["ref"] = lambda d: d.device_transmissions[dev].mixed_signal.plot.visualize(space=space)
    elif kind == "device_rx":
        r["plot"] = H.DeviceReceptionPlot(sc.devices[dev], title, space=space)
        r["ref"] = lambda d: d.device_receptions[dev].impinging_signals[0].plot.visualize(space=space)
    elif kind in ("dsp_tx", "dsp_rx"):
        k = ch.choose(len(spec["links"]))
        if kind == "dsp_tx":
            op, di = sc.tx_ops[k], spec["links"][k]["tx"]
            oi = list(sc.devices[di].transmitters).index(op)
            r["plot"] = H.DSPTransmissionPlot(op, title, space=space)
            r["ref"] = lambda d: d.device_transmissions[di].operator_transmissions[oi].signal.plot.visualize(space=space)
        else:
            op = sc.rx_ops[k]
            di = spec["links"][k]["tx"] if spec["links"][k]["kind"] == "radar" else spec["links"][k]["rx"]
            oi = list(sc.devices[di].receivers).index(op)
            r["plot"] = H.DSPReceptionPlot(op, title, space=space)
            r["ref"] = lambda d: d.device_receptions[di].operator_receptions[oi].signal.plot.visualize(space=space)
    elif kind in ("tx_const", "rx_const", "eye", "evaluation"):
        if not rrc:
            return None
        k = rrc[ch.choose(len(rrc))]
        tx, rx = spec["links"][k]["tx"], spec["links"][k]["rx"]
        op = sc.tx_ops[k]
        ti, ri = list(sc.devices[tx].transmitters).index(op), list(sc.devices[rx].receivers).index(op)
        if kind == "tx_const":
            r["plot"] = H.TransmittedConstellationPlot(op, title)
            r["ref"] = lambda d: d.device_transmissions[tx].operator_transmissions[ti].symbols.plot_constellation.visualize()
        elif kind == "rx_const":
            r["plot"] = H.ReceivedConstellationPlot(op, title)
            r["ref"] = lambda d: d.device_receptions[rx].operator_receptions[ri].equalized_symbols.plot_constellation.visualize()
        elif kind == "eye":
            r["plot"] = H.EyePlot(op, title)

            def ref(d):
                f = d.device_receptions[rx].operator_receptions[ri].frames[0]
                return f.signal.eye.visualize(symbol_duration=f.signal.duration / f.symbols.raw.size)

            r["ref"] = ref
        else:
            e = BitErrorEvaluator(op, op)
            r["plot"] = H.EvaluationPlot(e, title)
            r["evaluator"] = e
            r["ref"] = None
    elif kind in ("range", "range_velocity"):
        if not radar:
            return None
        k = radar[ch.choose(len(radar))]
        op, di = sc.rx_ops[k], spec["links"][k]["tx"]
        oi = list(sc.devices[di].receivers).index(op)
        r["plot"] = (H.RadarRangePlot if kind == "range" else RV)(op, title)

        def ref(d):
            from hermespy.radar import RadarCube

            c = d.device_receptions[di].operator_receptions[oi].cube
            c = RadarCube(c.data / c.data.max(), c.angle_bins, c.doppler_bins, c.range_bins, c.carrier_frequency)
            return (c.plot_range if kind == "range" else c.plot_range_velocity).visualize()

        r["ref"] = ref
    elif kind == "artifact":
        r["plot"] = H.ArtifactPlot(ev, 5, title=title)
        r["ref"] = None
    return r


def drawn(fig):
    """Everything drawn into a figure."""
    out = []
    for ax in fig.axes:
        for l in ax.lines:
            out.append(("line", np.asarray(l.get_xydata(), dtype=float)))
        for c in ax.collections:
            a = c.get_array()
            out.append((type(c).__name__, np.asarray(c.get_offsets(), dtype=float), None if a is None else np.asarray(a, dtype=float).ravel()))
    return out


def check_real(r, k, sample, b, where):
    title = r["plot"].title
    fig = next((plt.figure(n) for n in plt.get_fignums() if plt.figure(n).get_suptitle() == title), None)
    if fig is None:
        raise Violation("no_figure", f"{r['kind']} plot shows no figure; {where}")
    have = drawn(fig)
    if r["kind"] == "artifact":
        y = have[0][1][:, 1] if have else []
        if not len(y) or y[0] != sample.artifacts[0].to_scalar():
            raise Violation("stale_figure", f"artifact plot shows {y}, the latest artifact is {sample.artifacts[0].to_scalar()}; {where}")
        return
    if r["ref"] is None:
        return
    existing = set(plt.get_fignums())
    ref = r["ref"](sample.drop)
    want = drawn(ref.figure)
    for n in set(plt.get_fignums()) - existing:
        plt.close(n)
    d = S.diff(want, have)
    if d:
        raise Violation("stale_figure", f"the {r['kind']} plot does not show drop {k} {r.get('n')}: {d}; {where}")
