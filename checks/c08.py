"""C08: a replayed recording reproduces exactly the drops that were recorded, whatever was recorded, stopped, appended,
overwritten and replayed before."""

PROPERTY = "C08"
LEVEL = "exploration"
QUICK_RUNS = 330
THOROUGH_RUNS = 9000
QUICK_WALL = 420
RUN_TIMEOUT = 90

import os
import hashlib

import numpy as np

from dst.base import Violation
from dst.core import WallClock
from checks import rec_common as R
from checks import scene as S

CAMPAIGNS = (None, "c1", "c2")


def prepare():
    R.warm()


def run(ch, scratch):
    from hermespy.core import ScenarioMode
    from hermespy.simulation import SimulationScenario

    R.close_all()
    rich = ch.flag(0.25)
    specs = [R.spec_small(ch, rich=rich)]
    if ch.flag(0.333):
        specs.append(R.spec_small(ch, rich=rich))
    n_ops = 4 + ch.choose(14)
    trace, counters = [], {}
    nontrivial = 0
    digests = []

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    with WallClock(ch) as wall, R.EagerIds(ch) as ids:
        parties = [R.Party(s) for s in specs]
        # recorder index -> twin built with other seeds, i.e. another process which opens the recording later
        files = {}  # path -> {campaign: [owner, [drop snapshots], [channel facts]]}
        state = [dict(mode="default", file=None, campaign=None, pos=0, count=0) for _ in parties]

        def path(k):
            return os.path.join(scratch, f"{'ab'[k]}.h5")

        def writer(p):
            return any(s["mode"] == "record" and s["file"] == p for s in state)

        def users(p):
            return any(s["file"] == p and s["mode"] != "default" for s in state)

        def verify_mode(i, where):
            s, sc = state[i], parties[i].scenario
            want = {"default": ScenarioMode.DEFAULT, "record": ScenarioMode.RECORD, "replay": ScenarioMode.REPLAY}[s["mode"]]
            if sc.mode != want:
                raise Violation("mode", f"{where}: scenario {i} is in mode {sc.mode.name} instead of {want.name}; {trace}")
            n = {"default": 0, "record": s["count"], "replay": s["pos"]}[s["mode"]]
            if sc.num_drops != n:
                raise Violation("num_drops", f"{where}: scenario {i} reports {sc.num_drops} drops instead of {n} in mode {s['mode']}; {trace}")

        def expect_error(what, f, *excs):
            try:
                f()
            except Exception as e:
                count("probe:rejected_" + what)
                return e
            raise Violation("not_rejected", f"{what} was not rejected; {trace}")

        def replay_all(sc, party, p, c, start, where, log=None):
            """Replays everything from ``start`` on and compares."""
            owner, drops, chans = files[p][c]
            n = 0
            for k in range(start, len(drops)):
                party.log.clear()
                d = sc.drop()
                r = S.diff(drops[k], S.drop(d))
                if r:
                    raise Violation("replay_differs", f"{where}: drop {k} of {len(drops)} in {os.path.basename(p)}/{c}: {r}; {trace} specs={specs}")
                r = S.diff(chans[k], R.channels(d, party.scenario))
                if r:
                    raise Violation("replay_channels", f"{where}: drop {k}: {r}; {trace}")
                R.check_log(party.log, drops[k], f"{where}: drop {k} of {os.path.basename(p)}/{c}; {trace} specs={specs}")
                n += 1
            return n

        held = []
        for step in range(n_ops):
            ids.collect()
            i = ch.choose(len(parties))
            s, party = state[i], parties[i]
            sc = party.scenario
            weights = {"default": (5, 1, 1, 4, 1, 1), "record": (1, 9, 2, 1, 1, 1), "replay": (1, 6, 2, 2, 1, 1)}[s["mode"]]
            op = ch.choose(6, weights)
            p = path(ch.choose(2))
            c = CAMPAIGNS[ch.choose(3)]
            if op == 0:  # record
                overwrite = ch.flag(0.333)
                serialize_state = not ch.flag(0.333)
                trace.append(f"{i}.record({os.path.basename(p)},{c},ow={overwrite},st={serialize_state})")
                if s["mode"] != "default":
                    expect_error("record_while_busy", lambda: sc.record(p, c, overwrite=overwrite))
                elif users(p):
                    continue  # concurrent access to one file from two scenarios is up to the HDF5 library
                elif ch.flag(0.1):
                    trace[-1] = f"{i}.record({os.path.basename(p)},'state')"
                    expect_error("record_reserved", lambda: sc.record(p, "state", overwrite=overwrite))
                else:
                    known = files.get(p, {}) if not overwrite else {}
                    if c in known and known[c][0] != i:
                        continue  # a campaign belongs to one scenario
                    if c is None and any(k != i for k in [v[0] for k2, v in known.items() if k2 is None]):
                        continue
                    sc.record(p, c, overwrite=overwrite, serialize_state=serialize_state)
                    if overwrite:
                        files[p] = {}
                    f = files.setdefault(p, {})
                    entry = f.setdefault(c, [i, [], []])
                    if serialize_state and len(entry) == 3:
                        entry.append(True)
                    s.update(mode="record", file=p, campaign=c, count=0, pos=0)
            elif op == 1:  # drop
                for _ in range(1 + ch.choose(3)):
                    if s["mode"] == "replay":
                        owner, drops, chans = files[s["file"]][s["campaign"]][:3]
                        if s["pos"] >= len(drops):
                            trace.append(f"{i}.drop() past the end")
                            expect_error("drop_past_end", sc.drop)
                            break
                        trace.append(f"{i}.drop()")
                        party.log.clear()
                        d = sc.drop()
                        r = S.diff(drops[s["pos"]], S.drop(d)) or S.diff(chans[s["pos"]], R.channels(d, sc))
                        if r:
                            raise Violation("replay_differs", f"drop {s['pos']} of {os.path.basename(s['file'])}/{s['campaign']}: {r}; {trace} specs={specs}")
                        R.check_log(party.log, drops[s["pos"]], f"{trace} specs={specs}")
                        s["pos"] += 1
                        nontrivial += 1
                        count("probe:replayed_drops")
                    else:
                        trace.append(f"{i}.drop()")
                        party.log.clear()
                        d = sc.drop()
                        snap = S.drop(d)
                        digests.append(S.digest(snap))
                        R.check_log(party.log, snap, f"generated; {trace} specs={specs}")
                        if s["mode"] == "record":
                            f = files[s["file"]][s["campaign"]]
                            f[1].append(snap)
                            f[2].append(R.channels(d, sc))
                            s["count"] += 1
                            count("probe:recorded_drops")
                        if not ch.flag(0.25):
                            del d
            elif op == 2:  # stop
                trace.append(f"{i}.stop()")
                sc.stop()
                s.update(mode="default", file=None, campaign=None, pos=0, count=0)
            elif op == 3:  # replay
                if writer(p):
                    continue
                f = files.get(p)
                off = ch.choose(4)
                again = s["mode"] == "replay" and ch.flag(0.25)
                if again:
                    p, c = s["file"], s["campaign"]
                    f = files[p]
                trace.append(f"{i}.replay({os.path.basename(p)},{c},{off})")
                if f is None or c not in f or off >= len(f[c][1]):
                    e = expect_error("replay_invalid", lambda: sc.replay(p, c, off))
                    if ch.flag(0.5):
                        held.append(e)
                elif f[c][0] != i:
                    trace.pop()
                    continue
                else:
                    n = sc.replay(*((p, c, off) if not again else (None, c, off)))
                    if n != len(f[c][1]) - off:
                        raise Violation("replay_count", f"replay announces {n} instead of {len(f[c][1]) - off} drops; {trace}")
                    s.update(mode="replay", file=p, campaign=c, pos=off, count=0)
            elif op == 4:  # assign the campaign
                if s["mode"] == "replay":
                    other = CAMPAIGNS[(CAMPAIGNS.index(s["campaign"]) + 1) % 3]
                    trace.append(f"{i}.campaign={other}")
                    expect_error("campaign_during_replay", lambda: setattr(sc, "campaign", other))
                elif s["mode"] == "default":
                    trace.append(f"{i}.campaign={c}")
                    sc.campaign = c
            elif op == 5:  # adding devices or operators during a session must not be possible
                if s["mode"] != "default":
                    trace.append(f"{i}.add_device()")
                    from hermespy.simulation import SimulatedDevice

                    expect_error("add_device", lambda: sc.add_device(SimulatedDevice()))
            verify_mode(i, trace[-1] if trace else "start")

        # Everything stopped: all recordings can be opened and replayed by their recorder, by a twin, and from the file alone
        for i, party in enumerate(parties):
            party.scenario.stop()
            state[i].update(mode="default", file=None, campaign=None, pos=0, count=0)
            verify_mode(i, "final stop")
        if R.open_handles():
            raise Violation("file_left_open", f"{R.open_handles()} recording files are still open after all scenarios were stopped; {trace}")
        for p, f in files.items():
            for c, entry in f.items():
                owner, drops = entry[0], entry[1]
                if not drops:
                    expect_error("empty_replay", lambda: parties[owner].scenario.replay(p, c))
                    continue
                how = ch.choose(3)
                if how == 0:
                    party = parties[owner]
                    n = party.scenario.replay(p, c)
                elif how == 1:
                    party = R.Party(specs[owner], seed=77)
                    n = party.scenario.replay(p, c)
                else:
                    if len(entry) == 3:
                        continue
                    sc2, n = SimulationScenario.Replay(p, c)
                    party = R.Party(specs[owner], scenario=sc2)
                where = ("recorder", "twin", "from file")[how]
                if n != len(drops):
                    raise Violation("replay_count", f"{where}: {n} instead of {len(drops)} drops in {os.path.basename(p)}/{c}; {trace}")
                files[p][c] = entry[:3]
                nontrivial += replay_all(party.scenario, party, p, c, 0, where)
                expect_error("drop_past_end", party.scenario.drop)
                party.scenario.stop()
                files[p][c] = entry
                count(f"probe:final_replay_{where.replace(' ', '_')}")
    count("fault:identifier_reused", ids.reused)
    count("fault:clock_jump", wall.jumps)
    h = hashlib.blake2b(repr((trace, digests)).encode(), digest_size=8).hexdigest()
    return dict(digest=h, sched=hashlib.blake2b(repr(trace).encode(), digest_size=8).hexdigest(), key=repr([t.split("(")[0] for t in trace]), counters=counters, sim_time=wall.elapsed, steps=len(trace), nontrivial=nontrivial > 0, sample=trace[:12])
