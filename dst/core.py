"""Seeded cooperative scheduler over parked threads, virtual clock and simulated synchronisation primitives.

Exactly one simulated task runs at any time.  A task hands over control only at *yield points*: simulated
blocking calls (sleep, lock, condition, ray calls), and pre-emption points raised by ``sys.settrace`` opcode
events inside the product files named by :meth:`Sim.trace_files`.  Which task continues is a decision of the
run's :class:`~dst.choices.Choices`.
"""

from __future__ import annotations

import hashlib
import sys
import threading as _threading
import _thread
import time as _time

_RealLock = _thread.allocate_lock
_real_perf = _time.perf_counter

CURRENT: "Sim | None" = None


class SimKilled(BaseException):
    """Raised inside a simulated task whose process has crashed or whose run is over."""


class Deadlock(Exception):
    """No task is runnable and no timer is pending."""


class StepLimit(Exception):
    """The run exceeded its scheduling step budget (livelock)."""


class Task:
    def __init__(self, sim, tid, name, proc):
        self.sim, self.tid, self.name, self.proc = sim, tid, name, proc
        self.sem = _RealLock()
        self.sem.acquire()
        self.state = "ready"  # ready | blocked | done
        self.wake_at = None
        self.woken_by = None
        self.killed = False
        self.ident = None
        self.interrupt = None  # exception class/callable to run at next resume (signals)

    def __repr__(self):
        return f"<Task {self.tid} {self.name} {self.state}>"


class Sim:
    """One simulated execution."""

    def __init__(self, choices, max_steps=200_000, log_limit=100_000):
        self.ch = choices
        self.now = 0.0
        self.epoch = 1_700_000_000.0
        self.tasks: list[Task] = []
        self.by_ident: dict[int, Task] = {}
        self.current: Task | None = None
        self.steps = 0
        self._since_advance = 0
        self._stay = 0
        self.max_steps = max_steps
        self.dead = False
        self.log: list[str] = []
        self._hash = hashlib.blake2b(digest_size=12)
        self.counters: dict[str, int] = {}
        self.log_limit = log_limit
        self._trace_cache: dict[str, bool] = {}
        self._trace_files: tuple[str, ...] = ()
        self._preempt_left = 0
        self._calls_only = 0
        self._preempt_budget = 0
        self._failure: BaseException | None = None
        self._sched_hash = hashlib.blake2b(digest_size=8)
        self.random_sched = True
        self.switch_prob = 0.5
        self.trace_events = 0
        self.max_trace_events = 30_000_000
        self.on_resume = None

    # ------------------------------------------------------------------ logging
    def event(self, *parts):
        s = " ".join(str(p) for p in parts)
        line = f"{self.now:.6f} {self.current.name if self.current else '-'}: {s}"
        self._hash.update(line.encode())
        if len(self.log) < self.log_limit:
            self.log.append(line)

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def digest(self):
        return self._hash.hexdigest()

    def schedule_digest(self):
        return self._sched_hash.hexdigest()

    # ------------------------------------------------------------------ tasks
    def me(self) -> Task | None:
        return self.by_ident.get(_thread.get_ident())

    def spawn(self, fn, name, proc=None) -> Task:
        task = Task(self, len(self.tasks), name, proc)
        self.tasks.append(task)

        def body():
            task.ident = _thread.get_ident()
            self.by_ident[task.ident] = task
            task.sem.acquire()
            try:
                if not (task.killed or self.dead):
                    if self._trace_files:
                        sys.settrace(self._tracer)
                    fn()
            except SimKilled:
                pass
            except BaseException as e:  # noqa
                if self._failure is None and not self.dead:
                    e.sim_task = task.name
                    self._failure = e
            finally:
                sys.settrace(None)
                task.state = "done"
                self.by_ident.pop(task.ident, None)
                if not self.dead:
                    try:
                        self._dispatch(task)
                    except SimKilled:
                        pass
                    except BaseException as e:  # deadlock detected when a side task ends
                        self._fail_main(e)

        task.finished = _RealLock()
        task.finished.acquire()

        def outer():
            try:
                body()
            finally:
                task.finished.release()

        _thread.start_new_thread(outer, ())
        return task

    def _fail_main(self, exc):
        """Deliver a scheduling failure to the main task."""
        if self._failure is None:
            self._failure = exc
        main = self.tasks[0]
        if main.state != "done":
            main.state = "ready"
            self.current = main
            main.sem.release()

    # ------------------------------------------------------------------ scheduling
    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready" and not t.killed]

    def _dispatch(self, frm: Task, stay_ok=False):
        """Select the next task. Returns only when ``frm`` is scheduled again (unless it is done)."""
        self.steps += 1
        if self.steps > self.max_steps:
            if frm.tid == 0:
                raise StepLimit(f"no completion within {self.max_steps} scheduling steps")
            self._fail_main(StepLimit(f"no completion within {self.max_steps} scheduling steps"))
            if frm.state != "done":
                frm.sem.acquire()
                raise SimKilled()
            return
        self._since_advance += 1
        if self._since_advance > 1500:
            # fairness: real time passes even while some task is always runnable
            timers = [t for t in self.tasks if t.state == "blocked" and t.wake_at is not None and not t.killed]
            if timers:
                at = min(t.wake_at for t in timers)
                self.now = max(self.now, at)
                for t in timers:
                    if t.wake_at <= self.now:
                        t.state, t.wake_at, t.woken_by = "ready", None, "timeout"
                self.count("fair_advances")
            self._since_advance = 0
        while True:
            ready = self._runnable()
            if self._failure is not None:
                main = self.tasks[0]
                if main.state != "done":
                    main.state = "ready"
                    ready = [main]
            if ready:
                break
            timers = [t for t in self.tasks if t.state == "blocked" and t.wake_at is not None and not t.killed]
            if not timers:
                if frm.state == "done" and frm.tid == 0:
                    return
                exc = Deadlock("all tasks blocked: " + ", ".join(f"{t.name}[{t.woken_by}]" for t in self.tasks if t.state == "blocked" and not t.killed))
                if frm.tid == 0 and frm.state != "done":
                    raise exc
                self._fail_main(exc)
                if frm.state != "done":
                    frm.sem.acquire()
                    raise SimKilled()
                return
            at = min(t.wake_at for t in timers)
            self.now = max(self.now, at)
            self._since_advance = 0
            for t in timers:
                if t.wake_at <= self.now:
                    t.state, t.wake_at, t.woken_by = "ready", None, "timeout"
        if len(ready) == 1:
            nxt = ready[0]
        else:
            # 0 = continue with the current task, else lowest id; a task may not stay for ever
            if self._stay > 300:
                order = [t for t in ready if t.tid > frm.tid] + [t for t in ready if t.tid < frm.tid]
                nxt = order[0]
            else:
                order = sorted(ready, key=lambda t: (t is not frm, t.tid))
                nxt = order[self.ch.choose(len(order))]
            self._sched_hash.update(bytes((nxt.tid & 0xFF,)))
        if nxt is frm:
            self.current = frm
            self._stay += 1
        else:
            self._stay = 0
            self.current = nxt
            self.count("context_switches")
            nxt.sem.release()
            if frm.state != "done":
                frm.sem.acquire()
        if frm.state != "done":
            if frm.killed or (self.dead and frm.tid != 0):
                raise SimKilled()
            if self._failure is not None and frm.tid == 0:
                exc, self._failure = self._failure, None
                raise exc
            if frm.interrupt is not None:
                fn, frm.interrupt = frm.interrupt, None
                fn()

    def yield_point(self, label=""):
        """Allow any other task to run here."""
        me = self.me()
        if me is None or self.dead or me is not self.current:
            if me is not None and me.killed:
                raise SimKilled()
            return
        tr = sys.gettrace()
        if tr is not None:
            sys.settrace(None)
        try:
            self._dispatch(me)
        finally:
            if tr is not None:
                sys.settrace(tr)

    def block(self, label="", timeout=None):
        """Park the current task until :meth:`wake` or timeout. Returns True if woken, False on timeout."""
        me = self.me()
        if self.dead:
            raise SimKilled()
        assert me is not None and me is self.current, f"block outside of the running task ({label})"
        me.state = "blocked"
        me.woken_by = label
        me.wake_at = None if timeout is None else self.now + max(0.0, timeout)
        tr = sys.gettrace()
        if tr is not None:
            sys.settrace(None)
        try:
            self._dispatch(me)
        finally:
            if tr is not None:
                sys.settrace(tr)
        return me.woken_by != "timeout"

    def wake(self, task: Task):
        if task.state == "blocked":
            task.state, task.wake_at, task.woken_by = "ready", None, "wake"

    def sleep(self, dt):
        if self.me() is None:
            return
        self.count("sleeps")
        self.block("sleep", dt)

    def kill(self, task: Task):
        """Crash a task (its process died); it never runs again."""
        if task.state != "done":
            task.killed = True

    # ------------------------------------------------------------------ pre-emption
    def trace_files(self, *parts, budget=0):
        """Enable opcode-level pre-emption inside files whose path contains one of ``parts``."""
        self._trace_files = tuple(parts) if budget > 0 else ()
        self._preempt_budget = budget
        self._next_preempt()
        if self.me() is not None and self._trace_files:
            sys.settrace(self._tracer)

    def trace_calls(self, *parts, budget=0, mean=256):
        """Enable pre-emption at entries of functions in files whose path contains one of ``parts``."""
        self._trace_files = tuple(parts) if budget > 0 else ()
        self._calls_only = mean
        self._preempt_budget = budget
        self._next_preempt()
        if self.me() is not None and self._trace_files:
            sys.settrace(self._tracer)

    def _next_preempt(self):
        if self._preempt_budget <= 0:
            self._preempt_left = -1
            return
        self._preempt_budget -= 1
        d = self.ch.geometric(0, self._calls_only or 2048)
        self._preempt_left = d if d > 0 else -1

    def _traced(self, filename):
        r = self._trace_cache.get(filename)
        if r is None:
            r = self._trace_cache[filename] = any(x in filename for x in self._trace_files)
        return r

    def _tracer(self, frame, event, arg):
        if event == "call":
            if self._traced(frame.f_code.co_filename) and frame.f_code.co_name != "<module>":
                if self._calls_only:
                    self._count_down()
                    return None
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return self._tracer
            return None
        if event == "opcode":
            self.trace_events += 1
            if self.trace_events > self.max_trace_events:
                raise StepLimit("busy loop without yield")
            self._count_down(frame)
        return self._tracer

    def _count_down(self, frame=None):
        if self._preempt_left > 0:
            self._preempt_left -= 1
            if self._preempt_left == 0:
                self._next_preempt()
                self.count("preemptions")
                me = self.me()
                if me is not None and me is self.current and not self.dead:
                    hook = self.on_resume
                    if hook is not None and frame is not None and hook(me, frame):
                        return
                    self._dispatch(me)

    # ------------------------------------------------------------------ run
    def run(self, main):
        """Run ``main`` as task 0 in the calling thread until it returns."""
        global CURRENT
        assert CURRENT is None
        CURRENT = self
        task = Task(self, 0, "main", None)
        self.tasks.insert(0, task)
        task.ident = _thread.get_ident()
        self.by_ident[task.ident] = task
        self.current = task
        try:
            return main()
        finally:
            sys.settrace(None)
            self.finish()
            CURRENT = None

    def finish(self):
        self.dead = True
        self.by_ident.pop(self.tasks[0].ident, None)
        for t in self.tasks[1:]:
            if t.state != "done":
                t.killed = True
                try:
                    t.sem.release()
                except RuntimeError:
                    pass
        for t in self.tasks[1:]:
            if not t.finished.acquire(timeout=10.0):
                self.stuck = getattr(self, "stuck", 0) + 1


# ---------------------------------------------------------------------- primitives
_REAL_THREAD_START = _threading.Thread.start
_REAL_THREAD_JOIN = _threading.Thread.join
_REAL_IS_ALIVE = _threading.Thread.is_alive
_REAL = {n: getattr(_threading, n) for n in ("Lock", "RLock", "Condition", "Event", "Semaphore", "Thread", "Timer")}


def active() -> "Sim | None":
    """The running simulation if the calling thread is one of its tasks."""
    s = CURRENT
    if s is None or s.dead:
        return None
    if _thread.get_ident() in s.by_ident:
        return s
    return None


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []
        self._real = _REAL["RLock"]() if self._reentrant else _REAL["Lock"]()

    def __getstate__(self):
        raise TypeError(f"cannot pickle '_thread.{'RLock' if self._reentrant else 'lock'}' object")

    def acquire(self, blocking=True, timeout=-1):
        s = active()
        if s is None:
            if CURRENT is not None and CURRENT.dead:
                return True
            return self._real.acquire(blocking, timeout)
        me = s.me()
        s.yield_point("lock")
        if self._reentrant and self._owner is me:
            self._count += 1
            return True
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            if deadline is not None and s.now >= deadline:
                return False
            self._waiters.append(me)
            s.block("lock", None if deadline is None else deadline - s.now)
            if me in self._waiters:
                self._waiters.remove(me)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        s = active()
        if s is None:
            if CURRENT is not None and CURRENT.dead:
                return
            self._owner = None
            try:
                self._real.release()
            except RuntimeError:
                pass
            return
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner is not s.me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count > 0:
            return
        self._owner = None
        for w in list(self._waiters):
            s.wake(w)
        self._waiters.clear()
        s.yield_point("unlock")

    def locked(self):
        return self._owner is not None or (not self._reentrant and self._real.locked())

    def _is_owned(self):
        s = active()
        return s is not None and self._owner is s.me()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


class SimCondition:
    def __init__(self, lock=None):
        self._lock = SimRLock() if lock is None else lock
        self._waiters = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        s = active()
        if s is None:
            if CURRENT is not None and CURRENT.dead:
                raise SimKilled()
            raise RuntimeError("SimCondition.wait outside of a simulation")
        if not self._lock._is_owned() and getattr(self._lock, "_owner", None) is not s.me():
            raise RuntimeError("cannot wait on un-acquired lock")
        me = s.me()
        saved = self._lock._count
        self._lock._count = 1
        entry = [me, False]
        self._waiters.append(entry)
        self._lock.release()
        deadline = None if timeout is None else s.now + timeout
        while not entry[1]:
            if deadline is not None and s.now >= deadline:
                break
            s.block("condition", None if deadline is None else deadline - s.now)
        if entry in self._waiters:
            self._waiters.remove(entry)
        self._lock.acquire()
        self._lock._count = saved
        return entry[1]

    def wait_for(self, predicate, timeout=None):
        s = active()
        deadline = None if timeout is None else s.now + timeout
        r = predicate()
        while not r:
            left = None if deadline is None else deadline - s.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        s = active()
        if s is None:
            return
        if getattr(self._lock, "_owner", None) is not s.me():
            raise RuntimeError("cannot notify on un-acquired lock")
        for entry in [e for e in self._waiters if not e[1]][:n]:
            entry[1] = True
            s.wake(entry[0])

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class SimEvent:
    def __init__(self):
        self._flag = False
        self._waiters = []

    def __getstate__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        s = active()
        if s is not None:
            for w in self._waiters:
                s.wake(w)
            self._waiters.clear()
            s.yield_point("event.set")

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        s = active()
        if s is None:
            if not self._flag and CURRENT is not None and CURRENT.dead:
                raise SimKilled()
            return self._flag
        s.yield_point("event.wait")
        deadline = None if timeout is None else s.now + timeout
        me = s.me()
        while not self._flag:
            if deadline is not None and s.now >= deadline:
                break
            self._waiters.append(me)
            s.block("event", None if deadline is None else deadline - s.now)
            if me in self._waiters:
                self._waiters.remove(me)
        return self._flag


class SimSemaphore:
    def __init__(self, value=1):
        self._value = value
        self._cond = SimCondition(SimLock())

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            while self._value <= 0:
                if not blocking:
                    return False
                if not self._cond.wait(timeout):
                    return False
            self._value -= 1
            return True

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


_thread_counter = [0]


class SimThread(_REAL["Thread"]):
    """threading.Thread whose body runs as a simulated task when started inside a simulation."""

    def start(self):
        s = active()
        if s is None:
            return _REAL_THREAD_START(self)
        if getattr(self, "_sim_task", None) is not None:
            raise RuntimeError("threads can only be started once")
        self._sim_joiners = []

        def body():
            try:
                self.run()
            except SimKilled:
                raise
            except SystemExit:
                pass
            except BaseException as e:  # like threading.excepthook: report and end the thread
                import traceback

                s.thread_failures.append((self._sim_task.name, e, traceback.format_exc()))
                s.event("thread died", type(e).__name__)
            finally:
                if not s.dead:
                    for w in self._sim_joiners:
                        s.wake(w)

        if not hasattr(s, "thread_failures"):
            s.thread_failures = []
        self._sim_task = s.spawn(body, f"{type(self).__name__}{len(s.tasks)}", proc=s.me().proc)
        self._started.set() if hasattr(self, "_started") and hasattr(self._started, "set") else None
        s.event("thread start", self._sim_task.name)
        s.yield_point("thread.start")

    def join(self, timeout=None):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return _REAL_THREAD_JOIN(self, timeout)
        s = active()
        if s is None:
            return
        deadline = None if timeout is None else s.now + timeout
        while t.state != "done":
            if deadline is not None and s.now >= deadline:
                return
            self._sim_joiners.append(s.me())
            s.block("join", None if deadline is None else deadline - s.now)

    def is_alive(self):
        t = getattr(self, "_sim_task", None)
        if t is None:
            return _REAL_IS_ALIVE(self)
        return t.state != "done"


# ---------------------------------------------------------------------- seams
_real_sleep = _time.sleep
_real_time = _time.time
_real_monotonic = _time.monotonic
_real_time_ns = _time.time_ns


def _sleep(dt):
    s = active()
    if s is None:
        if CURRENT is not None and CURRENT.dead:
            return
        return _real_sleep(dt)
    if dt < 0:
        raise ValueError("sleep length must be non-negative")
    s.sleep(dt)


def _tick(s):
    # reading the clock takes a microsecond, so successive readings are distinct
    s.now += 1e-6
    return s.now


def _perf():
    s = active()
    return _real_perf() if s is None else _tick(s)


WALL = None  # wall clock of single-threaded simulated runs


class WallClock:
    """Simulated wall clock which advances, stalls and jumps by decisions of the seed."""

    JUMPS = (0.01, 0.0, 3.0, -3600.0, 86400.0 * 400, -1e-6)

    def __init__(self, ch, p_jump=0.1):
        self.ch, self.p, self.value, self.jumps, self.elapsed = ch, p_jump, 1_700_000_000.0, 0, 0.0

    def __call__(self):
        d = 0.01
        if self.ch.flag(self.p):
            d = self.JUMPS[self.ch.choose(len(self.JUMPS))]
            self.jumps += 1
        self.value += d
        self.elapsed += abs(d)
        return self.value

    def __enter__(self):
        global WALL
        WALL = self
        return self

    def __exit__(self, *_):
        global WALL
        WALL = None
        return False


def _now():
    s = active()
    if s is None and WALL is not None:
        return WALL()
    return _real_time() if s is None else s.epoch + getattr(s, "skew", 0.0) + _tick(s)


def _mono():
    s = active()
    return _real_monotonic() if s is None else _tick(s)


def install_time():
    """Patch the time module before the product is imported (``from time import sleep`` binds the patched one)."""
    _time.sleep = _sleep
    _time.perf_counter = _perf
    _time.time = _now
    _time.monotonic = _mono


class _SimEventFactory:
    pass


def install_threading():
    """Patch threading for modules imported afterwards which use ``from threading import ...`` or ``threading.X``.

    Objects created outside of a simulation are the real ones, so libraries keep working.
    """

    def factory(real, sim):
        def make(*a, **k):
            return sim(*a, **k) if active() is not None else real(*a, **k)

        return make

    _threading.Lock = factory(_REAL["Lock"], SimLock)
    _threading.RLock = factory(_REAL["RLock"], SimRLock)
    _threading.Condition = factory(_REAL["Condition"], SimCondition)
    _threading.Event = factory(_REAL["Event"], SimEvent)
    _threading.Semaphore = factory(_REAL["Semaphore"], SimSemaphore)
    _threading.Thread = SimThread
