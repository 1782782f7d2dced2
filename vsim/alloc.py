"""Simulated addresses.

jsonpickle's modules see an ``id()`` whose values are handed out here.  An
object that nobody but this table refers to is dead: its address goes to the
free list, and the policy decides which later object gets it.  Policies:

  never     every object has an address of its own
  lifo/fifo the most/least recently freed address is used again
  rand      as lifo or any other freed address, with probability p
  explicit  only the recorded decisions [[allocation number, address], ...]
"""

import builtins
import gc
import random
import sys

_real_id = builtins._vsim_real_id
_refs = sys.getrefcount

BASE = 0x7F0000000000


class Allocator:
    def __init__(self, policy=None):
        self.policy = policy or {"mode": "real"}
        self.mode = self.policy["mode"]
        self.rng = random.Random(self.policy.get("seed", 0))
        self.at = {n: t for n, t in self.policy.get("reuse", ())}
        self.table = {}  # real id -> [address, object]
        self.free = []
        self.n = 0
        self.reused = []
        self.died = 0
        self.busy = False
        probe = [0, object()]
        self.alone = _refs(probe[1])

    def address(self, obj):
        if self.mode == "real":
            return _real_id(obj)
        r = _real_id(obj)
        e = self.table.get(r)
        if e is None:
            if not self.busy and self.mode != "never":
                self.sweep()
            e = self.table[r] = [self.take(), obj]
        return e[0]

    def take(self):
        n = self.n
        self.n += 1
        free = self.free
        mode = self.mode
        if free and mode != "never":
            tok = None
            if mode == "lifo":
                tok = free.pop()
            elif mode == "fifo":
                tok = free.pop(0)
            elif mode == "rand":
                if self.rng.random() < self.policy["p"]:
                    tok = free.pop(self.rng.randrange(len(free)))
            elif mode == "explicit" and self.at.get(n) in free:
                tok = self.at[n]
                free.remove(tok)
            if tok is not None:
                self.reused.append([n, tok])
                return tok
        return BASE + 16 * n

    def sweep(self):
        """Bury the objects only this table refers to."""
        self.busy = True
        try:
            while True:
                dead = [r for r, e in self.table.items() if _refs(e[1]) == self.alone]
                if not dead:
                    return
                for r in dead:
                    self._bury(r)
        finally:
            self.busy = False

    def _bury(self, r):
        e = self.table.pop(r)
        e[1] = None  # finalizers run before the address is free
        self.free.append(e[0])
        self.died += 1

    def collect(self):
        """A garbage collection, blind to this table's references."""
        if self.mode in ("real", "never"):
            gc.collect()
            return
        self.busy = True
        try:
            hidden = [e[1] for e in self.table.values()]
            keep = {r: e[0] for r, e in self.table.items()}
            order = list(self.table)
            self.table.clear()
            hidden.append(hidden)
            me = _real_id(hidden)
            gc.set_debug(gc.DEBUG_SAVEALL)
            del hidden
            try:
                gc.collect()
            finally:
                gc.set_debug(0)
            garbage = list(gc.garbage)
            gc.garbage.clear()
            hidden = next(o for o in garbage if _real_id(o) == me)
            hidden.pop()
            dead = {_real_id(o) for o in garbage}
            del garbage
            for r, o in zip(order, hidden):
                if r not in dead:
                    self.table[r] = [keep[r], o]
                else:
                    self.free.append(keep[r])
                    self.died += 1
                o = None
            del hidden
            gc.collect()
        finally:
            self.busy = False
        self.sweep()


current = Allocator()


def use(policy):
    global current
    current = Allocator(policy)
    return current


def sim_id(obj, /):
    return current.address(obj)


def install():
    """Give modules of the library builtins with the simulated id()."""
    from . import boot

    def exec_module(self, module):
        module.__dict__["__builtins__"] = dict(vars(builtins), id=sim_id)
        super(boot._Loader, self).exec_module(module)

    boot._Loader.exec_module = exec_module
