"""Seeded scheduler over real threads, plus the hook/fault dispatcher.

Exactly one actor runs at any time.  An actor offers to yield at every trace
event of library or workload code (line or bytecode, per run) and at every
hook; the policy decides who continues.  Every decision that moves the baton
is recorded as ``[global_step, actor]``; replaying that list under the
"explicit" policy repeats the execution.
"""

import random
import sys
import threading
import time
import types

from . import zoo

_real_lock = threading.Lock
_get_ident = threading.get_ident

CODES = []  # code objects with yield points: library and workload (set by boot)


class SimAbort(BaseException):
    """Unwinds an actor after the run was given up."""


class SimDeadlock(BaseException):
    pass


class Cancelled(BaseException):
    """An interrupt that is not one of Python's own."""


class Interrupt:
    """Names of asynchronous faults and the exceptions they stand for."""

    KINDS = {
        "kbd": KeyboardInterrupt, "mem": MemoryError, "exit": SystemExit,
        "stk": RecursionError, "cancel": Cancelled,
    }  # fmt: skip


_current = None  # the running Sim, if any

LONG = 400000  # longer executions (measured without faults) are not explored


def limit(steps):
    """How long a run may take whose calls take so many steps alone."""
    return 4 * steps + 50000


def current():
    return _current


class Actor:
    __slots__ = ("idx", "fn", "lock", "done", "steps", "waiting", "ident", "error",
                 "tid", "lost")  # fmt: skip

    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.lock = _real_lock()
        self.lock.acquire()
        self.done = False
        self.steps = 0
        self.waiting = None
        self.ident = None
        self.error = None
        self.tid = None
        self.lost = False


class Policy:
    """Decides who runs next; one instance per execution."""

    def __init__(self, spec, nactors):
        self.spec = spec
        self.mode = spec["mode"]
        self.rng = random.Random(spec.get("seed", 0))
        if self.mode == "explicit":
            self.at = {s: a for s, a in spec["switches"]}
        elif self.mode == "pct":
            order = list(range(nactors))
            self.rng.shuffle(order)
            self.prio = {a: len(order) - i for i, a in enumerate(order)}
            self.low = 0
            self.points = set(spec["points"])

    def pick(self, step, cur, runnable, kind):
        """cur is None when the running actor finished or blocked."""
        mode = self.mode
        if mode == "explicit":
            a = self.at.get(step)
            if a is not None and a in runnable:
                return a
            return cur if cur is not None else min(runnable)
        if mode == "seq":
            return cur if cur is not None else min(runnable)
        rng = self.rng
        if mode == "rand":
            if cur is None:
                return rng.choice(sorted(runnable))
            p = self.spec["p_hook"] if kind == "hook" else self.spec["p"]
            if rng.random() < p:
                others = [a for a in sorted(runnable) if a != cur]
                if others:
                    return rng.choice(others)
            return cur
        if mode == "pct":
            if cur is not None and step in self.points:
                self.low -= 1
                self.prio[cur] = self.low
            return max(runnable, key=lambda a: self.prio[a])
        raise ValueError(mode)


class Sim:
    def __init__(self, schedule=None, grain="line", max_steps=3000000, plan=None,
                 interrupts=None, on_hook=None, arm=None):  # fmt: skip
        self.schedule = schedule or {"mode": "seq"}
        self.grain = grain
        self.max_steps = max_steps
        self.plan = plan or []
        self.interrupts = {(a, s): k for a, s, k in (interrupts or [])}
        self.arm = bool(interrupts) if arm is None else arm
        self.on_hook = on_hook
        self.step = 0
        self.switches = []
        self.actors = []
        self.current = None
        self.aborted = None
        self.inside = None  # the method of a user class the last interrupt hit
        self.fired = []  # faults that really happened
        self.hooklog = []
        self.counts = {}
        self.raised = []
        self._code = {}
        self._by_ident = {}
        self._done = None
        self._quiet = set()
        self._on = set()
        self.trail = 0  # order-sensitive hash of who ran where

    # -- tracing -----------------------------------------------------------

    def trace(self, a, on):
        """Turn the yield points in the actor's library frames on or off."""
        if self.grain != "hook":
            (self._on.add if on else self._on.discard)(a.idx)

    def event(self, code, where):
        a = self._by_ident.get(_get_ident())
        if a is not None and a.idx in self._on:
            self.yield_point("trace", where)

    def enter(self, code, where):
        a = self._by_ident.get(_get_ident())
        if a is not None and a.idx in self._on:
            self.yield_point("enter", where)

    def returned(self, code, where, fn, arg):
        """A builtin returned to library or workload code."""
        a = self._by_ident.get(_get_ident())
        if a is not None and a.idx in self._on and a.idx not in self._quiet:
            k = self.interrupts.pop((a.idx, a.steps + 1), None)
            if k is not None:
                self._deliver(a, k)

    def jumped(self, code, where, to):
        if to < where:
            self.returned(code, where, None, None)

    def _deliver(self, a, k):
        exc = Interrupt.KINDS[k]("injected")
        self.inside = _user_frame()
        self.fired.append(["interrupt:" + k, a.idx, a.steps])
        self.raised.append(exc)
        raise exc

    # -- scheduling --------------------------------------------------------

    def me(self):
        return self._by_ident.get(_get_ident())

    def runnable(self):
        return [
            a.idx
            for a in self.actors
            if not a.done and a.waiting is None and not a.lost
        ]

    def yield_point(self, kind, where=0):
        a = self._by_ident.get(_get_ident())
        if a is None or a.idx in self._quiet:
            return
        if self.aborted:
            raise SimAbort(self.aborted)
        if a.lost:  # was taken for blocked on a foreign lock; wait for the baton
            a.lost = False
            if self.current is not a:
                a.lock.acquire()
        self.step += 1
        a.steps += 1
        if self.step > self.max_steps:
            self.aborted = "step limit"
            raise SimAbort(self.aborted)
        k = self.interrupts.pop((a.idx, a.steps), None)
        if k is not None:
            # The interpreter looks for interrupts when a function starts, after
            # a builtin returns and when a loop repeats, not between any two
            # instructions: "with" and "finally" rely on it.
            if kind == "trace":
                self.interrupts.setdefault((a.idx, a.steps + 1), k)
            else:
                self._deliver(a, k)
        if len(self.actors) > 1:
            self.trail = hash((self.trail, a.idx, where)) & 0xFFFFFFFFFFFF
            run = self.runnable()
            nxt = self.policy.pick(self.step, a.idx, run, kind)
            if nxt != a.idx:
                self.switches.append([self.step, nxt])
                self._hand(a, self.actors[nxt])

    def _hand(self, a, b):
        self.current = b
        b.lock.release()
        a.lock.acquire()
        if self.aborted:
            raise SimAbort(self.aborted)

    def block(self, a, lock):
        """Called by a SimLock: park the actor until the lock is free."""
        a.waiting = lock
        self.step += 1
        run = self.runnable()
        if not run:
            a.waiting = None
            self.aborted = "deadlock"
            self._wake_all(a)
            raise SimDeadlock("deadlock")
        nxt = self.policy.pick(self.step, None, run, "block")
        self.switches.append([self.step, nxt])
        self._hand(a, self.actors[nxt])

    def unblock(self, lock):
        for a in self.actors:
            if a.waiting is lock:
                a.waiting = None

    def _wake_all(self, me=None):
        for a in self.actors:
            if a is not me and not a.done:
                try:
                    a.lock.release()
                except RuntimeError:
                    pass

    def _finish(self, a):
        a.done = True
        if self.aborted:
            self._wake_all(a)
            if all(x.done for x in self.actors):
                self._done.set()
            return
        run = self.runnable()
        if run:
            self.step += 1
            nxt = self.policy.pick(self.step, None, run, "end")
            if nxt != min(run) or self.schedule["mode"] == "explicit":
                self.switches.append([self.step, nxt])
            self.current = self.actors[nxt]
            self.actors[nxt].lock.release()
        elif all(x.done for x in self.actors):
            self._done.set()
        elif not any(x.lost for x in self.actors if not x.done):
            self.aborted = "deadlock"
            self._wake_all(a)

    def _body(self, a):
        a.tid = threading.get_native_id()
        self._by_ident[_get_ident()] = a
        a.ident = _get_ident()
        a.lock.acquire()
        try:
            if not self.aborted:
                a.fn(a)
        except (SimAbort, SimDeadlock):
            pass
        except BaseException as e:  # noqa: BLE001 - harness failure, reported
            a.error = e
        finally:
            self._on.discard(a.idx)
            self._finish(a)

    def run(self, fns):
        """Run the actor functions to completion under the schedule."""
        global _current
        self.actors = [Actor(i, f) for i, f in enumerate(fns)]
        self.policy = Policy(self.schedule, len(fns))
        _current = self
        zoo.set_dispatch(self.hook)
        watch(self.grain, self, self.arm)
        try:
            if len(fns) == 1:
                a = self.actors[0]
                a.ident = _get_ident()
                self._by_ident[a.ident] = a
                self.current = a
                try:
                    a.fn(a)
                except (SimAbort, SimDeadlock):
                    pass
                finally:
                    self._on.discard(a.idx)
                a.done = True
            else:
                self._run_threads()
        finally:
            zoo.set_dispatch(None)
            watch("hook", None)
            _current = None
        for a in self.actors:
            if a.error is not None:
                raise a.error
        return self

    def _run_threads(self):
        self._done = threading.Event()
        threads = []
        for a in self.actors:
            t = threading.Thread(target=self._body, args=(a,), daemon=True)
            t.start()
            threads.append(t)
        while any(a.ident is None for a in self.actors):
            time.sleep(0.0002)
        run = self.runnable()
        first = self.policy.pick(0, None, run, "start")
        if first != 0 or self.schedule["mode"] == "explicit":
            self.switches.append([0, first])
        self.current = self.actors[first]
        self.actors[first].lock.release()
        self._watch()
        if not self.aborted:
            for t in threads:
                t.join(5)

    def _watch(self):
        """Wait for the end; notice actors stuck in a lock we do not own."""
        last = -1
        idle = 0
        while not self._done.wait(0.4):
            cur = self.current
            if self.step != last or not _sleeping(cur.tid):
                last = self.step
                idle = 0
                continue
            idle += 1
            if idle < 3:
                continue
            idle = 0
            cur.lost = True
            run = self.runnable()
            if run:
                nxt = min(run)
                self.switches.append([self.step, nxt])
                self.current = self.actors[nxt]
                self.actors[nxt].lock.release()
            else:
                lost = [a for a in self.actors if a.lost and not a.done]
                if all(_sleeping(a.tid) for a in lost):
                    self.aborted = "deadlock"
                    return

    # -- hooks and faults --------------------------------------------------

    def quiet(self, a, on):
        """Stop yielding/faulting while the harness itself touches objects."""
        (self._quiet.add if on else self._quiet.discard)(a.idx)

    def hook(self, site, nid, obj=None):
        a = self._by_ident.get(_get_ident())
        if a is None or a.idx in self._quiet:
            return None
        key = (a.idx, site, nid)
        n = self.counts.get(key, 0)
        self.counts[key] = n + 1
        self.hooklog.append([a.idx, site, nid, n])
        out = None
        if self.on_hook is not None:
            out = self.on_hook(self, a, site, nid, n, obj)
        self.yield_point("hook")
        return out


_MON = sys.monitoring
_TOOL = 4
_EV = _MON.events
_GRAINS = {
    "line": _EV.LINE | _EV.PY_START | _EV.PY_RESUME,
    "op": _EV.INSTRUCTION | _EV.PY_START | _EV.PY_RESUME,
    "call": _EV.PY_START | _EV.PY_RESUME,
    "hook": 0,
}
_ASYNC = _EV.CALL | _EV.JUMP  # the former brings C_RETURN with it
_state = {"events": 0, "codes": 0}


def watch(grain, sim, arm=False):
    """Deliver the events of the library's and workload's code to the Sim.

    Events are local to those code objects and change only while no other
    thread runs: the interpreter rewrites the code for it.
    """
    if _MON.get_tool(_TOOL) is None:
        _MON.use_tool_id(_TOOL, "vsim")
    for ev, name in (
        (_EV.LINE, "event"), (_EV.INSTRUCTION, "event"),
        (_EV.PY_START, "enter"), (_EV.PY_RESUME, "enter"),
        (_EV.C_RETURN, "returned"), (_EV.JUMP, "jumped"),
    ):  # fmt: skip
        _MON.register_callback(_TOOL, ev, sim and getattr(sim, name))
    events = _GRAINS[grain]
    if arm and events:
        events |= _ASYNC
    if sim is not None and (events, len(CODES)) != (_state["events"], _state["codes"]):
        for code in CODES:
            _MON.set_local_events(_TOOL, code, events)
        _state.update(events=events, codes=len(CODES))


def _user_frame():
    """The innermost function of the workload's classes that is running."""
    f = sys._getframe(2)
    while f is not None:
        if f.f_globals is zoo.__dict__ and f.f_code.co_name != "fire":
            return f.f_code.co_name
        f = f.f_back
    return None


def codes_of(code):
    """A code object and those nested in it."""
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from codes_of(c)


def _sleeping(tid):
    try:
        with open(f"/proc/self/task/{tid}/stat") as f:
            return f.read().rsplit(")", 1)[1].split()[0] == "S"
    except (OSError, IndexError):
        return False


class SimLock:
    """Stands in for a lock found in library state."""

    def __init__(self, real, reentrant):
        self._real = real
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def _actor(self):
        sim = _current
        return (sim, sim.me()) if sim is not None else (None, None)

    def acquire(self, blocking=True, timeout=-1):
        sim, a = self._actor()
        if a is None:
            return self._real.acquire(blocking, timeout)
        while True:
            if self._owner is None:
                self._owner, self._count = a, 1
                return True
            if self._owner is a and self._reentrant:
                self._count += 1
                return True
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False
            sim.block(a, self)

    def release(self):
        sim, a = self._actor()
        if a is None:
            return self._real.release()
        if self._owner is not a:
            raise RuntimeError("release of a lock not owned")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            sim.unblock(self)

    def locked(self):
        return self._owner is not None or (
            hasattr(self._real, "locked") and self._real.locked()
        )

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


_LOCKS = {type(threading.Lock()): False, type(threading.RLock()): True}


def own_locks():
    """Replace locks held in jsonpickle's modules and objects by SimLocks."""
    n = 0
    seen = set()

    def scan(holder, get, put, depth):
        nonlocal n
        if id(holder) in seen or depth > 3:
            return
        seen.add(id(holder))
        for name, value in list(get(holder).items()):
            if type(value) in _LOCKS:
                try:
                    put(holder, name, SimLock(value, _LOCKS[type(value)]))
                    n += 1
                except (AttributeError, TypeError):
                    pass
            elif isinstance(value, type):
                if value.__module__.startswith("jsonpickle"):
                    scan(value, vars, setattr, depth + 1)
            elif type(value).__module__.startswith("jsonpickle") and hasattr(
                value, "__dict__"
            ):
                scan(value, vars, setattr, depth + 1)

    for name, mod in list(sys.modules.items()):
        if name == "jsonpickle" or name.startswith("jsonpickle."):
            scan(mod, vars, setattr, 0)
    return n
