"""C05: progress, intermediate estimates and runtime reported during a campaign are truthful."""

PROPERTY = "C05"
LEVEL = "exploration"
QUICK_RUNS = 320
THOROUGH_RUNS = 16000

import re

import numpy as np

from dst.base import Violation
from checks import mc_common as mc

ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")


def run(ch, scratch):
    case = mc.gen_case(ch)
    case["mode"] = ("LINEAR", "INTERACTIVE")[ch.choose(2, (0.6, 0.4))]
    case["terminal"] = case["mode"] == "INTERACTIVE"
    case["num_samples"] = 2 + ch.choose(10)
    case["evaluators"] = 1 + ch.choose(2)
    case["poll"] = (0.02, 0.06, 0.2)[ch.choose(3)]
    if ch.flag(0.3):
        case["confidence"] = {i: {"confidence": 0.9, "tolerance": 50.0, "min_num_samples": 2 + ch.choose(3)} for i in range(case["evaluators"])}
        case["scalar_noise"] = [0.0, 1.0, 30.0]
    o = mc.run_campaign(ch, case, scratch)
    if o.no_progress is not None:
        raise Violation("no_progress", f"{o.no_progress} case={case}")
    if o.error is not None:
        raise Violation("campaign_error", f"{type(o.error).__name__}: {str(o.error)[:1500]} case={case}")
    n = oracle(o)
    return mc.info(o, nontrivial=n > 1, reports=n)


def oracle(o):
    case = o.case
    total = case["num_samples"]
    sections = 1
    for _, s in mc.dims_of(o):
        sections *= s
    per = mc.args_product(case)
    text = ANSI.sub("", o.console_text)
    reports = []
    if case["mode"] == "LINEAR":
        for t, w in o.console_io.writes:
            for m in re.finditer(r"Progress: ([-+\dnainf.]+)%", w):
                reports.append((t, float(m.group(1)) / 100))
        if not reports:
            raise Violation("no_report", f"no progress reported; case={case}")
        if any(not (0.0 <= p <= 1.0) for _, p in reports):
            raise Violation("progress_range", f"{reports}; case={case}")
        for (t0, a), (t1, b) in zip(reports, reports[1:]):
            if b < a - 1e-9:
                raise Violation("progress_decreases", f"{a:.4f} at {t0:.3f} then {b:.4f} at {t1:.3f}; case={case}")
        if abs(reports[-1][1] - 1.0) > 1e-9:
            raise Violation("progress_incomplete", f"last report {reports[-1]}; case={case}")
        if "confidence" not in case:
            flight = case["actors"] * max(sections, case["batch"] or 1, sum(s for _, s in mc.dims_of(o)) or 1)
            lag = 0.15
            for t, p in reports:
                made_before = sum(1 for x in o.ctx.produced_at if x <= t - lag) / per
                made_now = sum(1 for x in o.ctx.produced_at if x <= t) / per
                if p + 5e-4 < made_before / (total * sections):
                    raise Violation("progress_understated", f"{p:.4f} reported at {t:.3f}, {made_before} of {total*sections} samples were generated; case={case}")
                if p - 5e-4 > (made_now + flight) / (total * sections):
                    raise Violation("progress_overstated", f"{p:.4f} reported at {t:.3f}, {made_now} of {total*sections} samples were generated and at most {flight} are in flight; case={case}")
    else:
        reports = estimates(o, text)
    # reported runtime
    took = o.finished - o.started
    perf = o.result.performance_time
    if not (0 <= perf <= took + 1e-3) or perf < took - 0.5:
        raise Violation("runtime_wrong", f"campaign took {took:.4f}s of simulated time, {perf} reported; case={case}")
    m = re.search(r"Simulation finished after ([\d.]+) seconds", text)
    if m is None or abs(float(m.group(1)) - perf) > 0.011:
        raise Violation("runtime_wrong", f"printed {m and m.group(0)}, result reports {perf}")
    return len(reports)


def estimates(o, text):
    """Rows of the live tables: each displayed estimate is the mean of a prefix of the cell's processed samples."""
    case = o.case
    res, entries = mc.ledger(o)
    grid = res.grid
    names = [d.title for d in grid]
    by_uid = {e["uid"]: e for e in o.ctx.produced}
    allowed = {}
    for i in range(1, case["evaluators"] + 1):
        for coords in np.ndindex(*[d.num_sample_points for d in grid]):
            key = (i, tuple(str(d.sample_points[c].value) for c, d in zip(coords, grid)))
            ok = {"nan"}
            s, n = 0.0, 0
            for _, c, u, _ in o.ctx.processed:
                if c == coords:
                    v = mc.probe_scalar(i, by_uid[u], case["none_rate"] if i == 1 else 0, case)
                    if v is not None:
                        s, n = s + v, n + 1
                        for d in (-1e-9, 0.0, 1e-9):
                            ok.add(f"{s / n + d:.2f}")
            allowed[key] = ok
    rows = []
    head = None
    for ln in text.replace("\r", "\n").splitlines():
        ln = ln.strip()
        if ln.startswith("┃"):
            head = [c.strip() for c in ln.strip("┃").split("┃")]
            if not any(h.startswith("S") for h in head) or set(head) - set(names) - {"S1", "S2"}:
                head = None
        elif ln.startswith("│") and head:
            cols = [c.strip() for c in ln.strip("│").split("│")]
            if len(cols) != len(head) or not any(cols):
                continue
            row = dict(zip(head, cols))
            key = tuple(row[n] for n in names)
            for i in (1, 2):
                if f"S{i}" in row:
                    rows.append((key, i, row[f"S{i}"]))
                    if (i, key) not in allowed:
                        raise Violation("estimate_wrong", f"live table row {row} is no parameter combination; case={case}")
                    if row[f"S{i}"] not in allowed[(i, key)]:
                        raise Violation("estimate_wrong", f"live table shows {row}, possible estimates are {sorted(allowed[(i, key)])[:12]}; case={case}")
    return rows
