"""C09: faults while recording or replaying cost exactly what they hit, and are never silent."""

PROPERTY = "C09"
LEVEL = "exploration"
QUICK_RUNS = 600
THOROUGH_RUNS = 16000
QUICK_WALL = 420
RUN_TIMEOUT = 90

import errno
import hashlib
import os

from dst.base import Violation
from dst.core import WallClock
from dst import fakeh5
from checks import rec_common as R
from checks import scene as S

CAMPAIGNS = (None, "c1", "c2")


class UserError(Exception):
    pass


def prepare():
    R.warm()


def run(ch, scratch):
    from hermespy.core import ScenarioMode

    R.close_all()
    spec = R.spec_small(ch, max_devices=2)
    path = os.path.join(scratch, "a.h5")
    model = {}  # campaign -> list of snapshots
    trace, counters, digests = [], {}, []
    tainted = False  # the user was told that the file could not be closed, or the process died
    nontrivial = 0

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    INJECTED = (OSError, MemoryError, KeyboardInterrupt, UserError, RuntimeError)

    with WallClock(ch) as wall, R.EagerIds(ch) as ids, fakeh5.Disk() as disk:
        party = R.Party(spec)
        boom = [0]

        def exploding(*_):
            if boom[0]:
                boom[0] -= 1
                if boom[0] == 0:
                    count("fault:callback_raises")
                    raise UserError("callback")

        for d in party.scenario.devices:
            for o in d.transmitters:
                o.add_transmit_callback(exploding)
            for o in d.receivers:
                o.add_receive_callback(exploding)

        def arm():
            """Plans the faults of the next call."""
            k = ch.choose(8, (10, 2, 2, 2, 2, 2, 1, 1))
            if k in (1, 2):
                i = disk.writes + ch.choose(60)
                disk.faults[i] = (errno.ENOSPC, errno.EIO, errno.EDQUOT)[ch.choose(3)] if k == 1 else "full"
            elif k in (3, 4):
                disk.op_faults[disk.ops + ch.choose(260)] = (MemoryError, KeyboardInterrupt, RuntimeError)[ch.choose(3)]
            elif k == 5:
                boom[0] = 1 + ch.choose(3)
            elif k == 6 and crash_allowed:
                disk.faults[disk.writes + ch.choose(60)] = ("crash", "crash_torn")[ch.choose(2)]
            return k

        def disarm():
            disk.op_faults.clear()
            boom[0] = 0

        def fired():
            return sum(disk.fired.values()) + counters.get("fault:callback_raises", 0)

        sessions = 1 + ch.choose(3)
        crash_allowed = ch.flag(0.25)
        sc = party.scenario
        for session in range(sessions):
            c = CAMPAIGNS[ch.choose(3)]
            if disk.crashed:
                break
            before = fired()
            arm()
            trace.append(f"record({c})")
            overwrite = ch.flag(0.2) or tainted  # a file which could not be closed is not written to again
            try:
                sc.record(path, c, overwrite=overwrite)
            except INJECTED as e:
                disarm()
                if overwrite:
                    model.clear()
                    tainted = False
                if fired() == before and not tainted:
                    raise Violation("record_failed", f"record failed without a fault: {e!r}; {trace}")
                trace.append(f"-> {type(e).__name__}")
                if isinstance(e, OSError):
                    tainted = True  # closing the file may have failed as well, the error was reported
                if sc.mode != ScenarioMode.DEFAULT:
                    raise Violation("mode", f"the scenario is in mode {sc.mode.name} after record failed with {e!r}; {trace}")
                continue
            if overwrite:
                model.clear()
                tainted = False
            disarm()
            drops = model.setdefault(c, [])
            n0 = len(drops)
            for k in range(1 + ch.choose(5)):
                if disk.crashed:
                    break
                before = fired()
                arm()
                party.log.clear()
                try:
                    d = sc.drop()
                except INJECTED as e:
                    if fired() == before:
                        raise Violation("drop_failed", f"drop {k} failed without a fault: {e!r}; {trace}")
                    trace.append(f"drop -> {type(e).__name__}")
                    count("probe:failed_drops")
                else:
                    snap = S.drop(d)
                    drops.append(snap)
                    digests.append(S.digest(snap))
                    trace.append("drop")
                    count("probe:recorded_drops")
                disarm()
                if sc.mode != ScenarioMode.RECORD:
                    raise Violation("mode", f"scenario left record mode; {trace}")
                if sc.num_drops != len(drops) - n0:
                    raise Violation("num_drops", f"{sc.num_drops} drops reported, {len(drops) - n0} were recorded; {trace}")
            if disk.crashed:
                break
            before = fired()
            if ch.flag(0.15):
                arm()
            trace.append("stop")
            try:
                sc.stop()
            except INJECTED as e:
                if fired() == before:
                    raise Violation("stop_failed", f"stop failed without a fault: {e!r}; {trace}")
                tainted = True
                count("probe:failed_stops")
                trace.append(f"-> {type(e).__name__}")
            disarm()
            if sc.mode != ScenarioMode.DEFAULT or sc.num_drops != 0:
                raise Violation("mode", f"scenario is in mode {sc.mode.name} after stop; {trace}")
            if R.open_handles():
                raise Violation("file_left_open", f"the recording is still open after stop; {trace}")

        # process death: nothing but the bytes written so far survives
        crashed = disk.crashed
        if crashed:
            trace.append("crash")
            tainted = True
            try:
                sc.stop()
            except BaseException:
                pass
            R.close_all()
            count("probe:crashes")
        disk.crashed = False
        disk.faults.clear()
        disk.full_until = None
        disk.open_files.clear()

        # a new process replays everything
        twin = R.Party(spec, seed=5)
        s2 = twin.scenario
        for c, drops in model.items():
            where = f"{c}; {trace} spec={spec}"
            try:
                n = s2.replay(path, c)
            except Exception as e:
                if tainted:
                    count("probe:unreadable_after_reported_failure")
                    continue
                if not drops:
                    continue
                raise Violation("unreadable", f"recording of {len(drops)} drops can't be replayed although every failure was confined: {type(e).__name__}: {str(e)[:200]}; {where}")
            if n != len(drops) and not tainted:
                raise Violation("replay_count", f"{n} drops announced, {len(drops)} were recorded; {where}")
            k = 0
            while k < len(drops):
                twin.log.clear()
                if ch.flag(0.1):
                    disk.read_faults[disk.reads + ch.choose(40)] = True
                b0 = disk.fired.get("read_error_EIO", 0)
                try:
                    d = s2.drop()
                except Exception as e:
                    disk.read_faults.clear()
                    if disk.fired.get("read_error_EIO", 0) > b0:
                        if twin.log:
                            raise Violation("notified_failed_replay", f"drop {k} failed to be read but was notified; {where}")
                        if s2.num_drops != k:
                            raise Violation("replay_position", f"failed replay of drop {k} moved the position to {s2.num_drops}; {where}")
                        trace.append("reread")
                        s2.replay(path, c, k)
                        continue
                    if tainted:
                        break
                    raise Violation("unreadable_drop", f"drop {k}: {type(e).__name__}: {str(e)[:200]}; {where}")
                disk.read_faults.clear()
                r = S.diff(drops[k], S.drop(d))
                if r:
                    raise Violation("replay_differs" if not tainted else "silently_wrong", f"drop {k} of {len(drops)}: {r}; {where}")
                R.check_log(twin.log, drops[k], where)
                nontrivial += 1
                count("probe:replayed_drops")
                k += 1
            s2.stop()
            if R.open_handles():
                raise Violation("file_left_open", f"the recording is still open after replay; {trace}")
    for k, v in disk.fired.items():
        count("fault:" + k, v)
    count("fault:clock_jump", wall.jumps)
    count("fault:identifier_reused", ids.reused)
    h = hashlib.blake2b(repr((trace, digests)).encode(), digest_size=8).hexdigest()
    return dict(digest=h, sched=hashlib.blake2b(repr(trace).encode(), digest_size=8).hexdigest(), key=repr(trace), counters=counters, sim_time=wall.elapsed, steps=disk.writes + disk.reads, nontrivial=nontrivial > 0, sample=trace[:14])
