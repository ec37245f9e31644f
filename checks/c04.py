"""C04: early stopping is decided per parameter combination by the evaluators' confidence, never otherwise."""

PROPERTY = "C04"
LEVEL = "exploration"
QUICK_RUNS = 240
THOROUGH_RUNS = 12000

import math
from statistics import NormalDist

import numpy as np

from dst.base import Violation
from checks import mc_common as mc

PHI = NormalDist().cdf


def run(ch, scratch):
    case = mc.gen_case(ch, max_sections=6, stage_args=False)
    case["num_samples"] = 4 + ch.choose(50)
    case["evaluators"] = 1 + ch.choose(2)
    case["scalar_noise"] = [(0.0, 0.05, 1.0, 30.0)[ch.choose(4)] for _ in range(1 + ch.choose(4))]
    case["confidence"] = {
        i: {"confidence": (0.05, 0.3, 0.9, 1.0, 0.0)[ch.choose(5)], "tolerance": (0.5, 0.1, 0.02, 0.0)[ch.choose(4)], "min_num_samples": 2 + ch.choose(7)}
        for i in range(case["evaluators"])
    }
    case["preempt"] = (0, 0, 4)[ch.choose(3)]
    case["stage_delay"] = (0.3, 0.6)[ch.choose(2)]
    o = mc.run_campaign(ch, case, scratch, max_steps=120_000)
    if o.no_progress is not None:
        raise Violation("no_progress", f"{o.no_progress} case={case}")
    if o.error is not None:
        raise Violation("campaign_error", f"{type(o.error).__name__}: {str(o.error)[:1500]} case={case}")
    stopped = oracle(o)
    if stopped:
        o.sim.count("probe:sections_stopped_early", stopped)
    return mc.info(o, nontrivial=True, stopped_sections=stopped)


def confident(vals, conf):
    """Bayer et al.: P(|mean - E| > tolerance) estimated from the samples. None if undecidable by rounding."""
    n = len(vals)
    if n < 2:
        return False
    std = float(np.std(vals, ddof=1))
    if std <= 1e-9:
        return None if std > 0 else False
    p = 2 * (1 - PHI(math.sqrt(n) * conf["tolerance"] / std))
    if abs(p - conf["confidence"]) < 1e-6:
        return None
    return p < conf["confidence"]


def oracle(o):
    case = o.case
    res, entries = mc.ledger(o)
    by_uid = {e["uid"]: e for e in o.ctx.produced}
    shape = [d.num_sample_points for d in res.grid]
    stopped = 0
    sections = max(1, int(np.prod(shape)))
    batch = max(sections, sum(shape), case["batch"] or 1)
    # nothing may be started for a section long after it has been found confident
    grace = 4 * (0.05 + case["base_latency"]) * 2 + batch * (4 * 0.016 + 0.01) + 0.5
    uids = [e["uid"] for _, e, _ in entries]
    if len(set(uids)) != len(uids):
        raise Violation("duplicated_sample", f"case={case}")
    for coords in np.ndindex(*shape):
        seq = [(t, by_uid[u], flag) for t, c, u, flag in o.ctx.processed if c == coords]
        n = len(seq)
        if n > case["num_samples"]:
            raise Violation("too_many_samples", f"{coords}: {n} samples of at most {case['num_samples']}; case={case}")
        may, must = False, None
        for i in range(1, case["evaluators"] + 1):
            conf = case["confidence"][i - 1]
            vals = []
            for t, e, flag in seq:
                v = mc.probe_scalar(i, e, case["none_rate"] if i == 1 else 0, case)
                if v is None:
                    continue
                vals.append(v)
                if len(vals) >= conf["min_num_samples"]:
                    c = confident(vals, conf)
                    if c is not False and flag:
                        may = True
                    if c is True and flag and len(vals) % conf["min_num_samples"] == 0:
                        must = t if must is None else min(must, t)
        if n < case["num_samples"]:
            stopped += 1
            if not may:
                raise Violation("stopped_without_confidence", f"{coords}: only {n} of {case['num_samples']} samples although no evaluator was confident; case={case}")
        if must is not None:
            for (t, c, u, _) in o.ctx.processed:
                if c == coords:
                    made = o.ctx.produced_at[o.ctx.produced.index(by_uid[u])]
                    if made > must + grace:
                        raise Violation("not_stopped", f"{coords} was confident at t={must:.3f} but a sample was generated at t={made:.3f} (grace {grace:.3f}); case={case}")
    return stopped
