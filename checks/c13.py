"""C13: default results directories are new and never shared, whatever other processes do at the same time."""

PROPERTY = "C13"
LEVEL = "exploration"
QUICK_RUNS = 3000
THOROUGH_RUNS = 90000
QUICK_WALL = 420
RUN_TIMEOUT = 60

import datetime
import errno
import hashlib
import os
import shutil

from dst import core, fakefs
from dst.base import Violation

EXPERIMENTS = (None, "exp", "exp/nested", "2023-11-14")
ERRNOS = (errno.ENOSPC, errno.EACCES, errno.EIO, errno.EDQUOT, errno.EROFS, errno.EMFILE)


def prepare():
    pass


def day(sim):
    return datetime.date.fromtimestamp(sim.epoch + getattr(sim, "skew", 0.0) + sim.now)


def run(ch, scratch):
    from hermespy.core import Executable

    root = os.path.join(os.path.realpath(scratch), "cwd")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    home = os.getcwd()
    os.chdir(root)
    try:
        return _run(ch, root, Executable)
    finally:
        os.chdir(home)
        shutil.rmtree(root, ignore_errors=True)


def _run(ch, root, Executable):
    sim = core.Sim(ch, max_steps=60_000)
    # close to midnight in a third of the runs
    base = 1_700_000_000 - 1_700_000_000 % 86400
    sim.epoch = float(base + (86400 - 1 - ch.choose(3) * 0.001 if ch.flag(0.4) else 3600))
    n_proc = 1 + ch.choose(4)
    faulty = ch.flag(0.4)
    intruder = ch.flag(0.4)
    fault_rate = (0.05, 0.3)[ch.choose(2)]
    armed = {}  # tid -> injected errors of the current call

    def plan(me, path):
        if faulty and me.tid in armed and ch.flag(fault_rate):
            e = ERRNOS[ch.choose(len(ERRNOS))]
            armed[me.tid].append(e)
            return e
        return None

    got = []  # (name, directory, experiment)
    trace, counters = [], {}
    foreign = {}

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    # what earlier campaigns left behind
    today = datetime.date.fromtimestamp(sim.epoch).isoformat()
    style = ch.choose(4, (6, 6, 4, 1))  # gapless, with gaps, with unrelated names, more than a thousand
    leaves = [f"{today}_{k:03d}" for k in range(ch.choose(3))]
    if style == 1:
        leaves = sorted({f"{today}_{ch.choose(6):03d}" for _ in range(1 + ch.choose(4))})
        count("probe:gaps")
    elif style == 2:
        leaves += [today + ("_notes", "_0", "_0000", "_1", "", "_-01", "_999", "_001.bak")[ch.choose(8)]]
        count("probe:unrelated_names")
    elif style == 3 and ch.flag(0.1):
        os.makedirs(os.path.join(root, "results"))
        for k in range(999):
            os.mkdir(os.path.join(root, "results", f"{today}_{k:03d}"))
        leaves = []
        count("probe:thousand_directories")
    for leaf in leaves:
        d = os.path.join(root, "results", leaf)
        if ch.flag(0.3):
            os.makedirs(os.path.dirname(d), exist_ok=True)
            with open(d, "w") as f:  # a file bearing the name
                f.write("x")
            count("probe:file_with_that_name")
        else:
            os.makedirs(d)
            with open(os.path.join(d, "results.mat"), "w") as f:
                f.write("old")
            foreign[os.path.join(d, "results.mat")] = "old"

    def process(name):
        def body():
            for k in range(1 + ch.choose(3)):
                exp = EXPERIMENTS[ch.choose(len(EXPERIMENTS), (6, 3, 1, 1))]
                overwrite = ch.flag(0.15)
                tid = sim.me().tid
                armed[tid] = []
                alone = n_proc == 1 and not intruder
                d0 = day(sim)
                mark = len(fs.created)
                parent = os.path.join(root, "results", *(exp.split("/") if exp else ()))
                taken = set(os.listdir(parent)) if os.path.isdir(parent) else set()
                where = f"experiment={exp} overwrite={overwrite} {trace}"
                try:
                    d = Executable.default_results_dir(exp, overwrite) if exp or overwrite else Executable.default_results_dir()
                except OSError as e:
                    errs = armed.pop(tid)
                    if errs:
                        trace.append(f"{name}: {errno.errorcode.get(e.errno, e.errno)}")
                        count("probe:reported_failures")
                        continue
                    if not os.path.isdir(parent) and os.path.lexists(os.path.join(root, "results", (exp or "").split("/")[0])):
                        count("probe:experiment_named_like_a_file")
                        continue
                    raise Violation("failed", f"no directory although nothing failed: {e!r}; {where}")
                armed.pop(tid)
                d1 = day(sim)
                trace.append(f"{name}: {os.path.relpath(d, root)}")
                if not os.path.isdir(d):
                    raise Violation("no_directory", f"{d} is not a directory; {where}")
                full = os.path.abspath(d)
                if overwrite:
                    if full != parent:
                        raise Violation("wrong_place", f"{full}, expected {parent}; {where}")
                    continue
                if os.path.dirname(full) != parent:
                    raise Violation("wrong_place", f"{full} is not within {parent}; {where}")
                leaf = os.path.basename(full)
                date, _, index = leaf.rpartition("_")
                if date not in (d0.isoformat(), d1.isoformat()) or not index.isdigit() or len(index) < 3:
                    raise Violation("wrong_name", f"{leaf} on {d0}..{d1}; {where}")
                if d0 != d1:
                    count("fault:midnight_during_call")
                for other, o, _ in got:
                    if o == full:
                        raise Violation("shared", f"{full} was handed to {other} and to {name}; {where}")
                if (tid, full) not in fs.created[mark:] or leaf in taken:
                    raise Violation("not_new", f"{full} was not created for {name}; {where}")
                if os.listdir(full):
                    raise Violation("not_new", f"{full} contains {os.listdir(full)}; {where}")
                if alone:
                    want = next(i for i in range(10_000) if f"{date}_{i:03d}" not in taken)
                    if int(index) != want:
                        raise Violation("wrong_index", f"{leaf}, the first unused index is {want}; {where}")
                got.append((name, full, exp))
                count("probe:directories")
                sim.yield_point("results")
                # the executable stores its results
                target = os.path.join(full, "results.mat")
                with open(target, "x") as f:
                    f.write(name + str(k))
                foreign[target] = name + str(k)
                sim.yield_point("stored")
                if alone and ch.flag(0.25):  # results of no use are removed again
                    del foreign[target]
                    got[:] = [g for g in got if g[1] != full]
                    os.remove(target)
                    os.rmdir(full)
                    count("probe:removed_again")
        return body

    def other():
        """Another program working in the same directory."""
        for _ in range(1 + ch.choose(6)):
            sim.sleep(ch.choose(4) * 0.001)
            exp = EXPERIMENTS[ch.choose(2)]
            parent = os.path.join(root, "results", *(exp.split("/") if exp else ()))
            p = os.path.join(parent, day(sim).isoformat() + f"_{ch.choose(4):03d}")
            if os.path.lexists(p) or not os.path.isdir(parent):
                continue
            if ch.flag(0.5):
                os.mkdir(p)
                with open(os.path.join(p, "data"), "w") as f:
                    f.write("foreign")
                foreign[os.path.join(p, "data")] = "foreign"
            else:
                with open(p, "w") as f:
                    f.write("foreign")
                foreign[p] = "foreign"
            count("fault:foreign_entry")

    def main():
        sim.trace_files("hermespy/core/executable.py", budget=40)
        ts = [sim.spawn(process(f"p{i}"), f"p{i}") for i in range(n_proc)]
        if intruder:
            ts.append(sim.spawn(other, "other"))
        while any(t.state != "done" for t in ts):
            sim.sleep(0.001)

    with fakefs.Dirs(root, sim, plan) as fs:
        sim.run(main)
    for p, text in foreign.items():
        if not os.path.isfile(p) or open(p).read() != text:
            raise Violation("altered", f"{p} was altered; {trace}")
    for e, n in fs.fired.items():
        count(f"fault:mkdir_{errno.errorcode[e]}", n)
    count("preemptions", sim.counters.get("preemptions", 0))
    key = repr((trace, sorted(got)))
    return dict(digest=sim.digest(), sched=sim.schedule_digest(), key=key, counters=counters, sim_time=sim.now, steps=sim.steps, nontrivial=bool(got), sample=trace[:14])
