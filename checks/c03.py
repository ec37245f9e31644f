"""C03: campaigns terminate and contain failures of samples and workers."""

PROPERTY = "C03"
LEVEL = "fault_enumeration"
QUICK_RUNS = 400
THOROUGH_RUNS = 20000

from collections import Counter

from dst.base import Violation
from checks import mc_common as mc


def run(ch, scratch):
    case = mc.gen_case(ch, stage_args=False)
    kind = ch.choose(5, (0.15, 0.3, 0.2, 0.2, 0.15))
    case["kind"] = ("none", "samples", "value", "uncaught", "crash")[kind]
    case["catch"] = case["kind"] != "uncaught"
    if case["kind"] in ("samples", "uncaught"):
        case["failures"] = 1 + ch.choose(6)
        case["stage_fail"] = (0.05, 0.2, 0.6)[ch.choose(3)]
    if case["kind"] == "value" and case["dims"]:
        k = ch.choose(len(case["dims"]))
        n, size = case["dims"][k]
        case["bad_value"] = (("stage", "setter", "evaluate")[ch.choose(3)], n, mc.points(n, size, k + 1)[ch.choose(size)], ch.choose(4))
    if case["kind"] == "crash":
        case["crashes"] = 1 + ch.choose(case["actors"])
        case["crash_rate"] = (0.02, 0.1, 0.5)[ch.choose(3)]
    if ch.flag(0.2):
        case["slow_worker"] = ch.choose(case["actors"])
    o = mc.run_campaign(ch, case, scratch)
    oracle(o)
    return mc.info(o, nontrivial=bool(o.ctx.failures or o.sim.crashed or case.get("slow_worker") is not None), failures=o.ctx.failures[:4], crashed=o.sim.crashed)


def oracle(o):
    case = o.case
    if o.no_progress is not None:
        raise Violation("no_progress", f"the campaign does not return: {o.no_progress}; case={case} failures={o.ctx.failures[:3]} crashed={o.sim.crashed}")
    # bounded liveness: once the last stage has been executed only polling and result collection remain
    slack = o.finished - max(o.ctx.last_activity, o.started)
    bound = 3 * case["poll"] + 3.0
    if slack > bound:
        raise Violation("late_termination", f"returned {slack:.3f}s of simulated time after the last sample, bound {bound:.3f}; case={case}")
    if o.sim.crashed:
        if o.error is None:
            # accepted only if nothing is missing
            complete(o, "crash_unreported")
        return
    if case["kind"] == "uncaught" and o.ctx.failures:
        if o.error is None:
            raise Violation("failure_swallowed", f"{o.ctx.failures[0]} with exceptions not being caught, but the campaign returned normally; case={case}")
        if "stage" not in str(o.error) and "evaluator" not in str(o.error):
            raise Violation("failure_obscured", f"the raised error does not mention the failure {o.ctx.failures[0]}: {str(o.error)[:300]}")
        return
    if o.error is not None:
        raise Violation("campaign_error", f"{type(o.error).__name__}: {str(o.error)[:1500]}; case={case}")
    complete(o, "collateral_loss")


def complete(o, sig):
    """Every cell holds all its samples except the ones which failed themselves."""
    case = o.case
    res, entries = mc.ledger(o)
    seen = Counter(e["uid"] for _, e, _ in entries)
    if any(n > 1 for n in seen.values()):
        raise Violation("duplicated_sample", f"case={case}")
    total = case["num_samples"]
    ncells = 1
    for _, s in mc.dims_of(o):
        ncells *= s
    if len(entries) < total * ncells - len(o.ctx.failures):
        raise Violation(sig, f"{len(entries)} samples of {total * ncells} requested with {len(o.ctx.failures)} failed ones (workers crashed: {o.sim.crashed}); case={case}")
    counts = Counter(tuple(sorted(mc.entry_cell(o, e).items())) for _, e, _ in entries)
    bv = case.get("bad_value")
    for cell in mc.cells(o):
        n = counts.get(tuple(sorted(cell.items())), 0)
        if n > total:
            raise Violation("too_many_samples", f"{cell}: {n} > {total}")
        if bv and cell.get(bv[1]) != bv[2] and n != total:
            raise Violation(sig, f"{cell}: {n} of {total} samples although only {bv[1]}={bv[2]} fails; case={case}")
    if not o.ctx.failures:
        for cell in mc.cells(o):
            n = counts.get(tuple(sorted(cell.items())), 0)
            if n != total:
                raise Violation(sig, f"{cell}: {n} of {total} samples; case={case}")
