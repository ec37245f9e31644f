"""Simulated ray: actors are separate processes with serialised messages, all scheduling decided by the Sim.

Faithful points: arguments, results and puts are pickled (protocol 5, out-of-band buffers are read-only on
the receiving side); actors with ``max_concurrency`` > 1 run that many calls concurrently on shared state;
calls wait for a free slot; construction is asynchronous; errors surface only on ``get``; a crashed actor
fails its pending calls and loses the objects it owns.
"""

from __future__ import annotations

import importlib.util
import os
import pickle
import sys
import types

from . import core

_spec = importlib.util.find_spec("ray")
_RAY_DIR = os.path.dirname(_spec.origin)


def _load_cloudpickle():
    # ray's vendored cloudpickle, without importing ray itself
    name = "ray.cloudpickle"
    pkg = types.ModuleType("ray")
    return name, pkg


class RayError(Exception):
    pass


class RayTaskError(RayError):
    def __init__(self, function_name="", traceback_str="", cause=None):
        super().__init__(f"{function_name}: {cause!r}\n{traceback_str}")
        self.cause = cause

    def as_instanceof_cause(self):
        cause = self.cause
        cls = type(cause)
        if isinstance(cause, RayError):
            return self
        try:
            name = f"RayTaskError({cls.__name__})"
            dual = type(name, (RayTaskError, cls), {"__init__": lambda s, *a: None, "__str__": lambda s: str(self)})
            e = dual()
            e.cause = cause
            e.args = (cause,)
            return e
        except TypeError:
            return self


class RayActorError(RayError):
    pass


class ActorDiedError(RayActorError):
    pass


class OwnerDiedError(RayError):
    pass


class ObjectLostError(RayError):
    pass


class GetTimeoutError(RayError, TimeoutError):
    pass


class ObjectRef:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __hash__(self):
        return hash(("ref", self.id))

    def __eq__(self, o):
        return isinstance(o, ObjectRef) and o.id == self.id

    def __repr__(self):
        return f"ObjectRef({self.id})"

    def hex(self):
        return f"{self.id:040x}"

    def __class_getitem__(cls, item):
        return cls


class _Process:
    def __init__(self, name):
        self.name = name
        self.alive = True


class _Actor:
    def __init__(self, aid, cls, options, proc):
        self.aid, self.cls, self.options, self.proc = aid, cls, options, proc
        self.instance = None
        self.created = False
        self.init_error = None
        self.queue = []
        self.running = 0
        self.tasks = []
        self.max_concurrency = int(options.get("max_concurrency", 1) or 1)
        self.pending_refs = set()


class RayWorld:
    """State of one simulated cluster; attached to the running Sim."""

    def __init__(self, sim, ch, cpus=8, latency=(0.0, 0.0), reorder=0.0, max_latency=0.05):
        self.sim, self.ch = sim, ch
        self.objects = {}  # id -> ("value", (data, buffers), owner) | ("error", exc) | None (pending)
        self.waiters = {}
        self.actors = {}
        self.next_id = 1
        self.initialized = False
        self.cpus = cpus
        self.latency_prob = 0.0
        self.max_latency = max_latency
        self.reorder_prob = reorder
        self.crash_plan = {}  # filled by the check: callable(world, actor, phase)
        self.driver = _Process("driver")
        self.call_log = []
        self.calls_started = 0

    def new_id(self):
        i = self.next_id
        self.next_id += 1
        return i

    def current_proc(self):
        t = self.sim.me()
        return (t.proc if t is not None and t.proc is not None else self.driver)

    def delay(self, kind):
        return self.base_latency + self._extra_delay(kind)

    base_latency = 0.0005

    def _extra_delay(self, kind):
        if self.latency_prob and self.ch.flag(self.latency_prob):
            d = (1 + self.ch.choose(50)) / 50.0 * self.max_latency
            self.sim.count("fault:message_delay")
            return d
        return 0.0

    def resolve(self, oid, entry):
        self.objects[oid] = entry
        for t in self.waiters.pop(oid, []):
            self.sim.wake(t)

    def ready(self, oid):
        return self.objects.get(oid) is not None

    def crash(self, actor):
        """Kill the actor's process now."""
        if not actor.proc.alive:
            return
        actor.proc.alive = False
        self.sim.count("fault:worker_crash")
        self.sim.event("CRASH", actor.proc.name)
        for t in actor.tasks:
            self.sim.kill(t)
        err = ("error", ActorDiedError(f"actor {actor.aid} died"))
        for oid in sorted(actor.pending_refs):
            self.resolve(oid, err)
        actor.pending_refs.clear()
        actor.queue.clear()
        for oid, e in list(self.objects.items()):
            if e is not None and e[0] == "value" and e[2] is actor.proc:
                self.objects[oid] = ("error", OwnerDiedError("object owner died"))

    # ---- calls
    def submit(self, actor, method, args, kwargs, num_returns=1):
        oid = self.new_id()
        self.objects[oid] = None
        payload = dumps((args, kwargs))
        if not actor.proc.alive:
            self.resolve(oid, ("error", ActorDiedError(f"actor {actor.aid} died")))
            return ObjectRef(oid)
        if actor.init_error is not None:
            self.resolve(oid, ("error", actor.init_error))
            return ObjectRef(oid)
        actor.pending_refs.add(oid)
        call = (oid, method, payload, self.sim.now + self.delay("call"))
        if actor.queue and actor.max_concurrency > 1 and self.reorder_prob and self.ch.flag(self.reorder_prob):
            self.sim.count("fault:message_reorder")
            actor.queue.insert(self.ch.choose(len(actor.queue)), call)
        else:
            actor.queue.append(call)
        self.sim.event("call", actor.proc.name, method, oid)
        self.pump(actor)
        self.sim.yield_point("remote")
        return ObjectRef(oid)

    def pump(self, actor):
        while actor.proc.alive and actor.created and actor.queue and actor.running < actor.max_concurrency:
            oid, method, payload, at = actor.queue.pop(0)
            actor.running += 1
            self._start(actor, oid, method, payload, at)

    def _start(self, actor, oid, method, payload, at):
        sim = self.sim

        def body():
            if at > sim.now:
                sim.sleep(at - sim.now)
            self.calls_started += 1
            if self.on_call is not None:
                self.on_call(self, actor, method)
            try:
                args, kwargs = loads(payload)
                args = tuple(get(a) if isinstance(a, ObjectRef) else a for a in args)
                kwargs = {k: get(v) if isinstance(v, ObjectRef) else v for k, v in kwargs.items()}
                result = getattr(actor.instance, method)(*args, **kwargs)
                d, b = dumps(result)
                entry = ("value", (d, b), None)
            except core.SimKilled:
                raise
            except (core.Deadlock, core.StepLimit):
                raise
            except BaseException as e:
                import traceback

                sim.event("task error", actor.proc.name, method, type(e).__name__)
                entry = ("error", RayTaskError(method, traceback.format_exc(), e))
                if isinstance(e, SystemExit):
                    entry = ("error", ActorDiedError("actor exited"))
            dl = self.delay("result")
            if dl:
                sim.sleep(dl)
            if actor.proc.alive:
                actor.pending_refs.discard(oid)
                actor.running -= 1
                self.resolve(oid, entry)
                self.pump(actor)

        t = sim.spawn(body, f"{actor.proc.name}.{method}#{oid}", proc=actor.proc)
        actor.tasks = [x for x in actor.tasks if x.state != "done"] + [t]

    on_call = None

    def create(self, cls, options, args, kwargs):
        aid = len(self.actors) + 1
        name = f"{cls.__name__}-{aid}"
        proc = _Process(name)
        actor = _Actor(aid, cls, options, proc)
        self.actors[aid] = actor
        payload = dumps((args, kwargs))
        delay = self.delay("create")
        sim = self.sim
        sim.event("create", name)

        def body():
            if delay:
                sim.sleep(delay)
            try:
                a, k = loads(payload)
                a = tuple(get(x) if isinstance(x, ObjectRef) else x for x in a)
                actor.instance = cls(*a, **k)
                actor.created = True
            except core.SimKilled:
                raise
            except BaseException as e:
                import traceback

                actor.init_error = ActorDiedError(f"actor constructor failed: {e!r}\n{traceback.format_exc()}")
                actor.init_error.cause = e
                actor.proc.alive = False
                for oid in sorted(actor.pending_refs):
                    self.resolve(oid, ("error", actor.init_error))
                actor.pending_refs.clear()
                return
            self.pump(actor)

        actor.tasks.append(sim.spawn(body, f"{name}.__init__", proc=proc))
        sim.yield_point("create")
        return ActorHandle(aid)


def world() -> RayWorld:
    s = core.CURRENT
    if s is None or getattr(s, "ray", None) is None:
        raise RuntimeError("simulated ray used outside of a simulation")
    return s.ray


# ---- serialisation
def dumps(obj):
    buffers = []
    data = cloudpickle.dumps(obj, protocol=5, buffer_callback=lambda b: buffers.append(bytes(b.raw())) and None)
    return data, buffers


def loads(payload):
    data, buffers = payload
    return pickle.loads(data, buffers=buffers)


class _Method:
    def __init__(self, aid, name):
        self._aid, self._name = aid, name

    def remote(self, *args, **kwargs):
        w = world()
        return w.submit(w.actors[self._aid], self._name, args, kwargs)

    def options(self, **_):
        return self


class ActorHandle:
    def __init__(self, aid):
        object.__setattr__(self, "_aid", aid)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Method(self._aid, name)

    def __reduce__(self):
        return (ActorHandle, (self._aid,))

    def __hash__(self):
        return hash(("actor", self._aid))

    def __eq__(self, o):
        return isinstance(o, ActorHandle) and o._aid == self._aid


class ActorClass:
    def __init__(self, cls, options=None):
        self._cls, self._options = cls, options or {}

    def options(self, **kw):
        return ActorClass(self._cls, {**self._options, **kw})

    def remote(self, *args, **kwargs):
        return world().create(self._cls, self._options, args, kwargs)


# ---- public API
def remote(*a, **options):
    if len(a) == 1 and not options and isinstance(a[0], type):
        return ActorClass(a[0])
    if not a:
        return lambda c: ActorClass(c, options)
    raise NotImplementedError("simulated ray supports actors only")


def put(value):
    w = world()
    w.sim.yield_point("put")
    oid = w.new_id()
    d, b = dumps(value)
    w.objects[oid] = ("value", (d, b), w.current_proc())
    return ObjectRef(oid)


def _wait_for(w, oids, need, timeout):
    sim = w.sim
    deadline = None if timeout is None else sim.now + timeout
    sim.yield_point("wait")
    while True:
        done = [o for o in oids if w.ready(o)]
        if len(done) >= need:
            return done
        if deadline is not None and sim.now >= deadline:
            return done
        me = sim.me()
        for o in oids:
            if not w.ready(o):
                lst = w.waiters.setdefault(o, [])
                if me not in lst:
                    lst.append(me)
        sim.block("ray.wait", None if deadline is None else deadline - sim.now)


def get(refs, *, timeout=None):
    w = world()
    single = isinstance(refs, ObjectRef)
    if not single and not isinstance(refs, (list, tuple)):
        raise ValueError("Invalid type of object refs: a list or ObjectRef is required")
    lst = [refs] if single else list(refs)
    for r in lst:
        if not isinstance(r, ObjectRef):
            raise ValueError(f"Attempting to call `get` on the value {r!r}, which is not an ray.ObjectRef.")
    # a failed object is reported as soon as it is found, like ray does
    done = _wait_for(w, [r.id for r in lst], len(lst), timeout)
    if len(set(done)) < len({r.id for r in lst}):
        raise GetTimeoutError("Get timed out")
    out = []
    for r in lst:
        kind, val = w.objects[r.id][:2]
        if kind == "error":
            raise val.as_instanceof_cause() if isinstance(val, RayTaskError) else val
        out.append(loads(val))
    return out[0] if single else out


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    w = world()
    if isinstance(refs, ObjectRef):
        raise TypeError("wait() expected a list of ray.ObjectRef, got a single ray.ObjectRef")
    if not isinstance(refs, list):
        raise TypeError(f"wait() expected a list of ray.ObjectRef, got {type(refs)}")
    if len(set(refs)) != len(refs):
        raise ValueError("Wait requires a list of unique object refs.")
    if len(refs) == 0:
        return [], []
    if num_returns <= 0:
        raise ValueError("Invalid number of objects to return %d." % num_returns)
    if num_returns > len(refs):
        raise ValueError("num_returns cannot be greater than the number of ray_waitables provided to ray.wait")
    done = _wait_for(w, [r.id for r in refs], num_returns, timeout)
    if len(done) > num_returns:
        # which of the ready objects is reported first is up to the cluster
        keep = list(done)
        while len(keep) > num_returns:
            keep.pop(len(keep) - 1 - w.ch.choose(len(keep)))
        done = keep
    dset = set(done)
    return [r for r in refs if r.id in dset], [r for r in refs if r.id not in dset]


def init(*a, **k):
    world().initialized = True
    return types.SimpleNamespace(dashboard_url="sim://")


def is_initialized():
    s = core.CURRENT
    return bool(s is not None and getattr(s, "ray", None) is not None and s.ray.initialized)


def available_resources():
    return {"CPU": float(world().cpus)}


def cluster_resources():
    return {"CPU": float(world().cpus)}


def shutdown():
    s = core.CURRENT
    if s is not None and getattr(s, "ray", None) is not None:
        s.ray.initialized = False


def kill(handle, no_restart=True):
    w = world()
    a = w.actors[handle._aid]
    if not a.proc.alive:
        return
    a.proc.alive = False
    w.sim.event("ray.kill", a.proc.name)
    me = w.sim.me()
    for t in a.tasks:
        if t is not me:
            w.sim.kill(t)
    for oid in sorted(a.pending_refs):
        w.resolve(oid, ("error", ActorDiedError("actor was killed")))
    a.pending_refs.clear()
    a.queue.clear()


def cancel(*a, **k):
    return None


def nodes():
    return [{"Alive": True}]


def get_actor(name, namespace=None):
    raise ValueError(f"Failed to look up actor with name '{name}'")


cloudpickle = None


def install():
    """Register the simulated package as ``ray``."""
    global cloudpickle
    mod = types.ModuleType("ray")
    mod.__path__ = []
    mod.__version__ = "0.sim"
    cp_dir = os.path.join(_RAY_DIR, "cloudpickle")
    sys.modules["ray"] = mod
    spec = importlib.util.spec_from_file_location("ray.cloudpickle", os.path.join(cp_dir, "__init__.py"), submodule_search_locations=[cp_dir])
    cp = importlib.util.module_from_spec(spec)
    sys.modules["ray.cloudpickle"] = cp
    spec.loader.exec_module(cp)
    cloudpickle = cp
    mod.cloudpickle = cp
    exc = types.ModuleType("ray.exceptions")
    for c in (RayError, RayTaskError, RayActorError, ActorDiedError, OwnerDiedError, ObjectLostError, GetTimeoutError):
        setattr(exc, c.__name__, c)
    sys.modules["ray.exceptions"] = exc
    mod.exceptions = exc
    for f in (remote, put, get, wait, init, is_initialized, available_resources, cluster_resources, shutdown, kill, cancel, nodes, get_actor, ObjectRef):
        setattr(mod, f.__name__, f)
    actor_mod = types.ModuleType("ray.actor")
    actor_mod.ActorHandle = ActorHandle
    actor_mod.ActorClass = ActorClass
    sys.modules["ray.actor"] = actor_mod
    mod.actor = actor_mod
    mod.ActorHandle = ActorHandle
