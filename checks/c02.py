"""C02: results are attributed to the parameters their samples were generated with; no stale stage is reused."""

PROPERTY = "C02"
LEVEL = "exploration"
QUICK_RUNS = 400
THOROUGH_RUNS = 20000

import re

import numpy as np

from dst.base import Violation
from checks import mc_common as mc


def run(ch, scratch):
    case = mc.gen_case(ch)
    case["matlab"] = ch.flag(0.4)
    case["print"] = ch.flag(0.5)
    if ch.flag(0.15):  # samples may fail; the remaining ones must still be attributed correctly
        case["failures"] = 1 + ch.choose(3)
        case["stage_fail"] = 0.1
    if ch.flag(0.1):  # a parameter value which is always rejected
        dims = case["dims"] + case["additional"]
        if dims:
            n, size = dims[ch.choose(len(dims))]
            i = 1 + (case["dims"].index((n, size)) if (n, size) in case["dims"] else 6)
            case["bad_value"] = (("stage", "setter", "evaluate")[ch.choose(3)], n, mc.points(n, size, i)[ch.choose(size)], ch.choose(4))
    o = mc.run_campaign(ch, case, scratch)
    if o.no_progress is not None:
        raise Violation("no_progress", f"{o.no_progress} case={case}")
    if o.error is not None:
        raise Violation("campaign_error", f"{type(o.error).__name__}: {o.error} case={case}")
    oracle(o)
    return mc.info(o, nontrivial=len(o.grid_values) > 0)


def oracle(o):
    case = o.case
    res, entries = mc.ledger(o)
    grid = res.grid
    titles = [d.title for d in grid]
    if sorted(titles) != sorted(o.grid_values):
        raise Violation("wrong_grid", f"result grid {titles}, configured {sorted(o.grid_values)}; case={case}")
    for d in grid:
        if [p.value for p in d.sample_points] != o.grid_values[d.title]:
            raise Violation("wrong_grid", f"dimension {d.title} reports {[p.value for p in d.sample_points]}")
    for coords, e, _ in entries:
        if len(coords) != len(grid):
            raise Violation("wrong_cell", f"coordinates {coords} for grid {titles}; case={case}")
        for c, d in zip(coords, grid):
            if d.sample_points[c].value != e["values"][d.title]:
                raise Violation("wrong_cell", f"sample generated with {d.title}={e['values'][d.title]} stored at {d.title}={d.sample_points[c].value}; case={case}")
        # stage freshness
        for name in o.grid_values:
            for k in range(mc.Plant.PARAMS[name], len(mc.STAGES)):
                if e["seen"][k] is None or e["seen"][k][name] != e["values"][name]:
                    raise Violation("stale_stage", f"stage {k} was executed with {name}={None if e['seen'][k] is None else e['seen'][k][name]} but the sample is labelled {e['values'][name]}; case={case}")
        for a, b in zip(e["tokens"][:-1], e["tokens"][1:]):
            if a[1] > b[1]:
                raise Violation("stale_stage", f"a later stage was not executed after an earlier one: {e['tokens']}; case={case}")
    tokens = [e["tokens"] for _, e, _ in entries]
    if len(set(tokens)) != len(tokens):
        raise Violation("recycled_sample", f"two samples stem from the same execution of all stages; case={case}")
    # aggregated figures
    shape = [d.num_sample_points for d in grid]
    for i, r in enumerate(o.result.evaluation_results[1:], start=1):
        if [d.title for d in r.grid] != titles:
            raise Violation("wrong_grid", f"evaluators disagree on the grid: {[d.title for d in r.grid]} vs {titles}")
        arr = np.asarray(r.to_array())
        if list(arr.shape) != shape:
            raise Violation("wrong_shape", f"{arr.shape} for grid {shape}; case={case}")
        for coords in np.ndindex(*shape):
            vals = [mc.probe_scalar(i, e, case["none_rate"] if i == 1 else 0, case) for c, e, _ in entries if c == coords]
            vals = [v for v in vals if v is not None]
            want = float(np.mean(vals)) if vals else float("nan")
            got = float(arr[coords])
            if not (np.isnan(want) and np.isnan(got)) and not np.isclose(want, got, rtol=1e-9):
                raise Violation("wrong_estimate", f"evaluator {i} at {coords}: {got}, mean of its samples is {want}; case={case}")
    if case.get("matlab"):
        if o.mat_error is not None:
            raise Violation("export_error", repr(o.mat_error))
        from scipy.io import loadmat

        m = loadmat(o.matfile)
        dims = [str(x).strip() for x in np.ravel(m["dimensions"])]
        mshape = shape if shape else [1, 1]
        for i, r in enumerate(o.result.evaluation_results):
            a = m[f"result_{i}"]
            want = np.asarray(r.to_array())
            if a.size != want.size or not np.array_equal(np.ravel(a), np.ravel(want), equal_nan=True):
                raise Violation("export_wrong", f"result {i} differs in the export")
        expect = [len(np.ravel(m[d])) for d in dims]
        if expect != shape:
            raise Violation("export_wrong", f"exported dimensions {dims} of sizes {expect} do not span the exported result {shape}; case={case}")
        for d in dims:
            if [float(x) for x in np.ravel(m[d])] != [float(x) for x in o.grid_values[d]]:
                raise Violation("export_wrong", f"exported values of {d}: {np.ravel(m[d])}")
    if case.get("print"):
        check_table(o, o.printed, res, entries)
    if case["mode"] == "LINEAR":
        check_table(o, o.console_text, res, entries)


def check_table(o, text, res, entries):
    """Rows of the printed table: parameter titles followed by the ledger's count."""
    lines = text.splitlines()
    names = set(o.grid_values)
    head = None
    rows = []
    for ln in lines:
        if ln.startswith("┃"):
            cols = [c.strip() for c in ln.strip("┃").split("┃")]
            head = cols if "LEDGER" in cols else None
            rows = [] if head else rows
        elif ln.startswith("│") and head:
            rows.append([c.strip() for c in ln.strip("│").split("│")])
    if not rows:
        raise Violation("print_missing", f"no result table printed; case={o.case}")
    cols = [c for c in head if c in names]
    if sorted(cols) != sorted(names):
        raise Violation("print_wrong", f"table columns {head}; case={o.case}")
    from collections import Counter

    want = Counter(tuple(str(e["values"][n]) for n in cols) for _, e, _ in entries)
    got = {tuple(r[head.index(n)] for n in cols): int(float(r[head.index("LEDGER")])) for r in rows}
    for k, n in want.items():
        if got.get(k) != n:
            raise Violation("print_wrong", f"table row {dict(zip(cols, k))} shows {got.get(k)} samples, {n} were generated with these parameters; case={o.case}")
