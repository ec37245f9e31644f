#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below (single place to edit the statements)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": hook,
        },
    })


MC = "hermespy/core/pymonte/"
prop("C01", "Monte Carlo campaigns collect exactly the requested samples",
     "A Monte Carlo campaign in which no sample fails and no stopping criterion is met returns a result to which every combination of parameter values contributes exactly the requested number of samples (times the number of configured arguments of each stage). No generated sample is lost or counted twice, whatever the number of workers, the shape of the grid and the interleaving of workers, collector and queue.",
     ["schedules", "configurations", "inputs"],
     "all interleavings of driver, queue manager, collector and workers, all message delays and reorderings, all grids, worker counts, batch sizes and stage arguments",
     "The tests run the engine on a real cluster with one uncontrolled schedule each, check little more than that a result comes back, and mock the remote calls in unit tests; lost or duplicated batches need a particular order of stash, fetch and stop.",
     [MC + "actors.py", MC + "monte_carlo.py"],
     [("queue of grid sections", MC + "actors.py: MonteCarloQueueManager.next_batch/disable_section"), ("sample hand-over", MC + "actors.py: MonteCarloActor.run/fetch_results"), ("collector loop and final drain", MC + "actors.py: MonteCarloCollector.run/fetch_results"), ("completion", MC + "monte_carlo.py: MonteCarlo.simulate")],
     ["MonteCarloResult.evaluation_results", "EvaluationResult.add_artifact"],
     [("task count", "tasks handed out per grid section", MC + "actors.py"), ("stash", "batches waiting in a worker", MC + "actors.py")])
prop("C02", "Campaign results belong to the parameters they were generated with",
     "Every figure of a campaign result, in its arrays, its printed tables and its MATLAB export, stems from exactly the samples which were generated with the parameter values it is labelled with, for any number, order, kind and stage impact of the grid dimensions. If simulation stages are skipped because a parameter does not impact them, every impacted stage and all later ones are nevertheless executed with the new value before a sample is evaluated, and no two samples stem from the same execution.",
     ["schedules", "configurations", "histories"],
     "all grids of registered, unregistered, nested, callable and scalar dimensions in any order, additional dimensions, batch histories including failed samples, all interleavings",
     "Tests check the grid containers one call at a time; which stages are re-executed depends on the history of sections a worker was handed, which no test controls.",
     [MC + "actors.py", MC + "monte_carlo.py", MC + "grid.py", MC + "scalar.py", MC + "evaluation.py"],
     [("stage skipping", MC + "actors.py: MonteCarloActor"), ("dimension sorting", MC + "monte_carlo.py: MonteCarlo.simulate"), ("aggregation", MC + "scalar.py: ScalarEvaluationResult"), ("export", MC + "monte_carlo.py: MonteCarloResult")],
     ["EvaluationResult.grid/to_array", "MonteCarloResult.print/save_to_matlab"])
prop("C03", "Campaigns terminate and contain failing samples and workers",
     "A campaign returns within a bounded time after its last sample was generated, under every schedule and with arbitrarily slow workers. If exceptions are caught, a failing sample costs nothing but itself and all other requested samples are part of the result; if they are not caught, or if a worker dies, the campaign raises an error describing the failure instead of blocking or returning an incomplete result as if it were complete.",
     ["fault_sequences", "schedules", "crash_points"],
     "exceptions in any stage, evaluator or parameter assignment, transient or permanent for a parameter value; death of any subset of workers at any sample; slow workers; all interleavings",
     "No test kills a worker or lets an arbitrary sample fail within a campaign; liveness cannot be seen from one passing run.",
     [MC + "actors.py", MC + "monte_carlo.py"],
     [("exception handling", MC + "actors.py: MonteCarloActor"), ("polling loop", MC + "monte_carlo.py: MonteCarlo.simulate")],
     ["return or exception of MonteCarlo.simulate", "evaluation results"])
prop("C04", "Early stopping follows the evaluators' confidence, per combination",
     "A parameter combination receives fewer samples than requested only if the confidence criterion of at least one evaluator was met by samples collected for this very combination, on no fewer than that evaluator's minimum number of samples, and it never receives more than requested. Once the criterion is met no further samples are started for the combination apart from those already handed out, and all other combinations continue unaffected.",
     ["schedules", "configurations", "inputs"],
     "all sample sequences, confidence, tolerance and minimum settings of several evaluators, and all interleavings of the stop request with batches in flight",
     "The criterion is unit-tested on one array; that the stop request reaches the queue for the right section while other batches are in flight is a matter of message order.",
     [MC + "scalar.py", MC + "actors.py"],
     [("confidence", MC + "scalar.py: ScalarEvaluationResult.add_artifact"), ("stop request", MC + "actors.py: MonteCarloCollector"), ("section removal", MC + "actors.py: MonteCarloQueueManager.disable_section")],
     ["samples per combination over time"])
prop("C05", "Progress, live estimates and runtime of a campaign are truthful",
     "While a campaign runs, the progress it reports stays between 0 and 100 %, never decreases, neither falls behind the samples already generated nor runs ahead of the work handed out, and reaches 100 % at the end. Every estimate in the live table is the mean of samples collected so far for exactly the displayed parameter combination, and the reported runtime is the time the campaign took.",
     ["schedules", "configurations"],
     "all grids, all polling instants relative to the workers' and collector's state",
     "Tests query progress of a queue manager with a quadratic grid in three states; the reports depend on when polling interleaves with the workers.",
     [MC + "actors.py", MC + "monte_carlo.py", MC + "scalar.py"],
     [("progress", MC + "actors.py: MonteCarloQueueManager.query_progress"), ("live table", MC + "monte_carlo.py: MonteCarlo.simulate"), ("estimates", MC + "actors.py: MonteCarloCollector.query_estimates")],
     ["console output", "MonteCarloResult.performance_time"])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools_props_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools_props_more.py")) else None

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
