"""Executions with one actor whose hooks act according to a plan.

An operation may carry "acts": a list of [fraction, action].  The fraction
selects one of the hook firings that the operation has on its own (counted in
a dry run), so a plan stays meaningful while a scenario is being reduced.

Actions: ["nest", op]  a complete call from inside the hook
         ["raise", exception name]
         ["gc"]
"""

import gc

from . import ops
from .faults import EXC
from .sched import Sim


class Frame:
    __slots__ = ("path", "op", "n", "acts", "sites", "in_repr")

    def __init__(self, path, op, acts):
        self.path = path
        self.op = op
        self.in_repr = False
        self.n = 0
        self.acts = acts
        self.sites = []


class Runner:
    """Runs operations; nested ones get frames of their own."""

    def __init__(self, scn, docs, counts=None, grain="hook", nested=True):
        self.scn = scn
        self.sim = Sim(grain=grain, on_hook=self.on_hook)
        self.env = ops.Env(scn, docs, self.sim)
        self.counts = counts or {}
        self.nested = nested
        self.frames = []
        self.outs = {}
        self.raised = {}
        self.fired = []
        self.sites = {}
        self.first_hook = None

    def plan(self, op, path):
        """firing index -> actions, from the measured number of firings."""
        n = self.counts.get(path)
        out = {}
        if not n:
            return out
        for i, (frac, act) in enumerate(op.get("acts", ())):
            if act[0] == "nest" and not self.nested:
                continue
            out.setdefault(min(n - 1, int(frac * n)), []).append((i, act))
        return out

    def perform(self, op, path, a, keep=False):
        f = Frame(path, op, self.plan(op, path))
        self.frames.append(f)
        try:
            out = ops.perform(op, self.env, a, keep=keep)
        finally:
            self.frames.pop()
        self.outs[path] = out
        self.sites[path] = f.sites
        return out

    def on_hook(self, sim, a, site, nid, n, obj):
        f = self.frames[-1]
        i = f.n
        f.n += 1
        f.sites.append([site, list(nid) if isinstance(nid, tuple) else nid])
        for j, act in f.acts.get(i, ()):
            if act[0] == "raise":
                exc = EXC[act[1]]("injected", site)
                self.raised.setdefault(f.path, []).append(exc)
                self.fired.append(f"{act[1]} in {site}")
                raise exc
            if act[0] == "gc":
                self.fired.append("collection in " + site)
                gc.collect()
            elif act[0] == "nest":
                # repr() of a container inside its own repr() gives "[...]":
                # the interpreter's guard, so do not visit the same graph there
                f.in_repr = site in ("repr", "keyrepr", "hash")
                if any(x.in_repr for x in self.frames) and "g" in act[1]:
                    if any(x.op.get("g") == act[1]["g"] for x in self.frames):
                        continue
                self.fired.append("nested call in " + site)
                self.perform(act[1], f"{f.path}.{j}", a)

    def run(self, body):
        self.sim.run([body])
        return self


def walk(op, path="0"):
    """All operations of a tree with their paths."""
    yield path, op
    for j, (_, act) in enumerate(op.get("acts", ())):
        if act[0] == "nest":
            yield from walk(act[1], f"{path}.{j}")
