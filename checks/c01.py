"""C01: every parameter combination contributes exactly the requested number of samples."""

PROPERTY = "C01"
LEVEL = "exploration"
QUICK_RUNS = 400
THOROUGH_RUNS = 20000

from collections import Counter

from dst.base import Violation
from checks import mc_common as mc


def run(ch, scratch):
    case = mc.gen_case(ch)
    o = mc.run_campaign(ch, case, scratch)
    if o.no_progress is not None:
        raise Violation("no_progress", f"{o.no_progress} case={case}")
    if o.error is not None:
        raise Violation("campaign_error", f"{type(o.error).__name__}: {o.error} case={case}")
    oracle(o)
    return mc.info(o, nontrivial=o.sim.counters.get("context_switches", 0) > 5)


def oracle(o):
    case = o.case
    res, entries = mc.ledger(o)
    seen = Counter(e["uid"] for _, e, _ in entries)
    dup = [u for u, n in seen.items() if n > 1]
    if dup:
        raise Violation("duplicated_sample", f"samples {dup[:5]} counted more than once; case={case}")
    produced = {e["uid"] for e in o.ctx.produced}
    lost = produced - set(seen)
    if lost:
        raise Violation("lost_sample", f"{len(lost)} of {len(produced)} generated samples are missing from the result; case={case}")
    counts = Counter(tuple(sorted(mc.entry_cell(o, e).items())) for _, e, _ in entries)
    want = case["num_samples"] * mc.args_product(case)
    for cell in mc.cells(o):
        n = counts.get(tuple(sorted(cell.items())), 0)
        if n != want:
            raise Violation("wrong_count", f"{cell}: {n} samples, {want} requested; case={case}")
