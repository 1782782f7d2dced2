"""A simulated import system: modules whose classes come, go and are replaced."""

import importlib.machinery
import sys

from . import zoo

# module -> {qualified class name: kind}
MODS = {
    "vw": {"K": "plain"},
    "vw.a": {"A": "plain", "B": "state"},
    "vw.b": {"A": "slots", "C": "newargs"},
    "vw.sub": {},
    "vw.sub.c": {"D": "dict", "O.I": "plain"},
    "vtop": {"T": "plain", "B": "state"},
}
PACKAGES = ("vw", "vw.sub")
NAMES = {f"{m}.{q}": (m, q) for m, qs in MODS.items() for q in qs}
# stored without a container of their own
FLAT = [f"{m}.{q}" for m, qs in MODS.items() for q, k in qs.items() if k in ("plain", "slots")]


def kind(name):
    m, q = NAMES[name]
    return MODS[m][q]


def make_class(mod, qual, gen):
    k = MODS[mod][qual]
    ns = {"__module__": mod, "__qualname__": qual, "gen": gen}
    bases = ()
    if k == "slots":
        ns["__slots__"] = ("nid", "kids")
    elif k == "dict":
        bases = (dict,)
    elif k == "state":

        def __getstate__(self):
            return dict(self.__dict__)

        def __setstate__(self, state):
            self.__dict__.update(state)
            zoo.fire("setstate", self.nid)

        ns.update(__getstate__=__getstate__, __setstate__=__setstate__)
    elif k == "newargs":

        def __new__(cls, *args):
            o = object.__new__(cls)
            o.args = list(args)
            return o

        def __getnewargs__(self):
            return (self.nid,)

        ns.update(__new__=__new__, __getnewargs__=__getnewargs__)
    return type(qual.rsplit(".", 1)[-1], bases, ns)


def fill(o, nid, kids):
    if isinstance(o, dict):
        o["nid"] = nid
        if kids is not None:
            o["kids"] = kids
        return o
    o.nid = nid
    if kids is not None:
        o.kids = kids
    return o


def field(o, name):
    return dict.get(o, name) if isinstance(o, dict) else getattr(o, name, None)


class State:
    """What can be imported; copied freely, decides without importing."""

    def __init__(self):
        self.mods = dict.fromkeys(MODS, "up")
        self.gens = dict.fromkeys(NAMES, 0)
        self.next = 0

    def copy(self):
        s = State()
        s.mods, s.gens, s.next = dict(self.mods), dict(self.gens), self.next
        return s

    def up(self, mod):
        parts = mod.split(".")
        return all(self.mods[".".join(parts[:i])] == "up" for i in range(1, len(parts) + 1))

    def found(self, name):
        """Generation of the class that an import gives now, or None."""
        m, _ = NAMES[name]
        return self.gens[name] if self.up(m) else None

    def apply(self, ev):
        what = ev[0]
        if what == "down":
            self.mods[ev[1]] = ev[2]
        elif what == "up":
            self.mods[ev[1]] = "up"
            self.next += 1
            for n, (m, _) in NAMES.items():
                # submodules are loaded anew with their package
                if (m == ev[1] or m.startswith(ev[1] + ".")) and self.gens[n] is not None:
                    self.gens[n] = self.next
        elif what == "hide":
            self.gens[ev[1]] = None
        else:  # show, swap
            self.next += 1
            self.gens[ev[1]] = self.next


class World:
    """Makes sys.modules and the import machinery follow a State."""

    def __init__(self):
        self.state = State()
        sys.meta_path.insert(0, self)

    def find_spec(self, name, path=None, target=None):
        if name in MODS and self.state.mods[name] in ("up", "broken"):
            return importlib.machinery.ModuleSpec(name, self, is_package=name in PACKAGES)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        if self.state.mods[name] == "broken":
            raise ImportError(f"injected: {name} cannot be initialised")
        for q in MODS[name]:
            gen = self.state.gens[f"{name}.{q}"]
            if gen is not None:
                self.put(module, name, q, gen)

    def put(self, module, name, q, gen):
        if q == "O.I":
            if not hasattr(module, "O"):
                module.O = type("O", (), {"__module__": name})
            module.O.I = make_class(name, q, gen)
        else:
            setattr(module, q, make_class(name, q, gen))

    def apply(self, ev):
        self.state.apply(ev)
        if ev[0] in ("down", "up"):
            m = ev[1]
            for n in [n for n in MODS if n == m or n.startswith(m + ".")]:
                sys.modules.pop(n, None)
                parent, _, last = n.rpartition(".")
                if sys.modules.get(parent) is not None:
                    vars(sys.modules[parent]).pop(last, None)
            if ev[0] == "down" and ev[2] == "none":
                sys.modules[m] = None
            return
        m, q = NAMES[ev[1]]
        mod = sys.modules.get(m)
        if mod is None:
            return
        if ev[0] == "hide":
            holder, _, last = q.rpartition(".")
            obj = getattr(mod, holder, None) if holder else mod
            if obj is not None and hasattr(obj, last):
                delattr(obj, last)
        else:
            self.put(mod, m, q, self.state.gens[ev[1]])
