"""Worker process: executes simulated runs of one check and reports JSON lines on its original stdout."""

from __future__ import annotations

import argparse
import gc
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time

_clock = time.monotonic


class Stuck(BaseException):
    pass


def _alarm(*_):
    raise Stuck()


def load(check):
    from . import seams

    seams.install()
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    return importlib.import_module(f"checks.{check}")


class Runner:
    def __init__(self, mod, out):
        self.mod, self.out = mod, out
        self.tainted = False
        self.scratch_root = tempfile.mkdtemp(prefix="dst-", dir=os.environ.get("DST_SCRATCH") or None)
        self.run_timeout = getattr(mod, "RUN_TIMEOUT", 60)

    def close(self):
        shutil.rmtree(self.scratch_root, ignore_errors=True)

    def execute(self, seed=None, prefix=None, variant=None):
        """One simulated run. Returns (kind, payload): ok/violation/skip/error/stuck."""
        import numpy as np

        from . import core, seams
        from .base import Skip, Violation, product_frames, short_tb
        from .choices import Choices, RunAborted

        ch = Choices(seed, prefix, cap=getattr(self.mod, "CHOICE_CAP", 400_000))
        scratch = os.path.join(self.scratch_root, "run")
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        # global generators start equal in every run; checks that need them perturbed do so by choice
        random.seed(12345)
        np.random.seed(12345)
        old_handler = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.run_timeout)
        old_cwd = os.getcwd()
        os.chdir(scratch)
        so, se = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, "w")
        try:
            try:
                info = self.mod.run(ch, scratch, variant) if getattr(self.mod, "VARIANTS", None) else self.mod.run(ch, scratch)
                kind, payload = "ok", dict(info)
            except Violation as v:
                kind, payload = "violation", {"sig": v.sig, "message": v.message}
            except Skip as s:
                kind, payload = "skip", {"why": str(s)}
            except RunAborted as a:
                kind, payload = "skip", {"why": str(a)}
            except Stuck:
                kind, payload = "stuck", {}
                self.tainted = True
            except (core.Deadlock, core.StepLimit) as e:
                kind, payload = "violation", {"sig": "no_progress", "message": f"{type(e).__name__}: {e}"}
            except Exception as e:
                if product_frames(e, seams.REPO):
                    kind, payload = "violation", {"sig": f"unexpected_{_exc_name(e)}", "message": short_tb(e)}
                else:
                    kind, payload = "error", {"message": short_tb(e)}
        finally:
            try:
                sys.stdout.close()
            except Exception:
                pass
            sys.stdout, sys.stderr = so, se
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old_handler)
            os.chdir(old_cwd)
            core.WALL = None
            if core.CURRENT is not None:
                core.CURRENT.dead = True
                core.CURRENT = None
        payload["choices"] = ch.record
        return kind, payload

    def minimise(self, sig, choices, budget=45.0):
        """Generic list minimiser: truncate, delete chunks, zero and shrink values while the signature persists."""
        t0 = _clock()
        best = list(choices)
        trials = 0

        def test(c):
            nonlocal trials
            if self.tainted or _clock() - t0 > budget or trials > 3000:
                return False
            trials += 1
            k, p = self.execute(prefix=c)
            if k == "violation" and p["sig"] == sig:
                return p["choices"]
            return False

        def strip(c):
            c = list(c)
            while c and c[-1] == 0:
                c.pop()
            return c

        r = test(best)
        if r is False:
            return strip(best), trials, False
        best = strip(best)
        # truncate
        lo = 0
        n = len(best)
        while n > 0:
            cut = len(best) - n
            if cut > 0 or n == len(best):
                c = best[: len(best) - n]
                r = test(c)
                if r is not False and len(c) < len(best):
                    best = strip(c)
                    n = len(best)
                    continue
            n //= 2
        improved = True
        while improved and _clock() - t0 < budget:
            improved = False
            size = max(1, len(best) // 2)
            while size >= 1:
                i = 0
                while i < len(best):
                    if _clock() - t0 > budget:
                        break
                    c = best[:i] + best[i + size :]
                    if len(c) < len(best) and test(c) is not False:
                        best = strip(c)
                        improved = True
                        continue
                    if any(best[i : i + size]):
                        c = best[:i] + [0] * len(best[i : i + size]) + best[i + size :]
                        if test(c) is not False:
                            best = strip(c)
                            improved = True
                    i += size
                size //= 2
            for i in range(len(best)):
                if _clock() - t0 > budget:
                    break
                while i < len(best) and best[i] > 1:
                    for v in (best[i] // 2, best[i] - 1):
                        c = best[:i] + [v] + best[i + 1 :]
                        if test(c) is not False:
                            best = strip(c)
                            improved = True
                            break
                    else:
                        break
        return best, trials, True


def _exc_name(e):
    n = type(e).__name__
    c = getattr(e, "cause", None)
    return f"{n}" if c is None or n.startswith("RayTaskError(") else f"{n}:{type(c).__name__}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--base", type=int, default=1)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--count", type=int, default=10)
    ap.add_argument("--deadline", type=float, default=600.0)
    ap.add_argument("--known", default="")
    ap.add_argument("--replay")
    ap.add_argument("--seeds", help="explicit comma separated seed list (determinism self-test)")
    ap.add_argument("--min-budget", type=float, default=45.0)
    a = ap.parse_args()

    t0 = _clock()
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2) if not os.environ.get("DST_DEBUG") else None

    def emit(**k):
        out.write(json.dumps(k, default=str) + "\n")
        out.flush()

    try:
        mod = load(a.check)
    except BaseException as e:
        import traceback

        emit(type="fatal", message=traceback.format_exc()[-3000:], product_import=True)
        return
    runner = Runner(mod, out)
    known = set(x for x in a.known.split(",") if x)
    try:
        emit(type="loaded", s=_clock() - t0)
        if hasattr(mod, "prepare"):
            mod.prepare()
        gc.collect()
        gc.freeze()
        if a.replay:
            rec = json.load(open(a.replay))
            kind, p = runner.execute(prefix=rec["choices"]) if rec.get("choices") is not None else runner.execute(seed=rec["seed"])
            p["choices"] = len(p["choices"])
            emit(type="replayed", kind=kind, **p)
            return
        if a.seeds:
            seeds = [int(x) for x in a.seeds.split(",")]
        else:
            seeds = [a.base * 1_000_003 + a.start + i * a.stride for i in range(a.count)]
        for seed in seeds:
            if _clock() - t0 > a.deadline:
                emit(type="deadline")
                break
            emit(type="start", seed=seed)
            r0 = _clock()
            kind, p = runner.execute(seed=seed)
            dur = _clock() - r0
            ch = p.pop("choices")
            if kind == "ok":
                emit(type="run", seed=seed, dur=dur, nchoices=len(ch), chash=hashlib.blake2b(repr(ch).encode(), digest_size=8).hexdigest(), **p)
            elif kind == "violation":
                if p["sig"] in known:
                    emit(type="known", seed=seed, sig=p["sig"], dur=dur, message=p["message"][:500])
                    continue
                best, trials, stable = runner.minimise(p["sig"], ch, a.min_budget)
                emit(type="violation", seed=seed, choices=best if stable else ch, original_length=len(ch), trials=trials, stable=stable, **p)
                break
            elif kind == "stuck":
                emit(type="stuck", seed=seed, choices=ch)
                break
            else:
                emit(type=kind, seed=seed, dur=dur, **p)
                if kind == "error":
                    break
            if runner.tainted:
                break
        emit(type="end")
    except BaseException:
        import traceback

        emit(type="error", message="worker failed: " + traceback.format_exc()[-3000:])
    finally:
        runner.close()
        out.flush()
        os._exit(0)


if __name__ == "__main__":
    main()
