"""Fault plans: what happens at which firing of which hook."""

import gc

from . import zoo

EXC = {
    "ValueError": ValueError, "KeyError": KeyError, "AttributeError": AttributeError,
    "TypeError": TypeError, "IndexError": IndexError, "RuntimeError": RuntimeError,
    "OSError": OSError, "Oops": zoo.Oops, "ZeroDivisionError": ZeroDivisionError,
    "AssertionError": AssertionError, "NotImplementedError": NotImplementedError,
    "ImportError": ImportError, "UnicodeError": UnicodeError,
    "RecursionError": RecursionError, "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
    "UserWarning": UserWarning, "LookupError": LookupError, "EOFError": EOFError,
    "OverflowError": OverflowError, "ArithmeticError": ArithmeticError,
}  # fmt: skip
ORDINARY = [k for k in EXC if k not in ("KeyboardInterrupt", "SystemExit")]
FATAL = ["KeyboardInterrupt", "SystemExit"]

ENC_SITES = {
    "getstate", "reduce", "getnewargs", "getinitargs", "h_flatten", "h_flatten1",
    "h_flatten2", "slotread", "items", "listiter", "listitem", "dictitem", "prop",
    "next", "exclude", "getattr",
}  # fmt: skip
DEC_SITES = {
    "setstate", "setstate2", "reconstruct", "new", "init", "h_restore",
    "h_restore1", "h_restore2", "on_missing",
}  # fmt: skip


def documented_fallback(site, exc):
    """Failures jsonpickle is documented to absorb or translate."""
    if exc == "TypeError":
        return site in ("reduce", "getstate", "new", "init", "reconstruct", "setitem", "setattr", "hash")
    if exc == "AttributeError":
        return site in ("slotread", "prop", "extend", "setattr", "exclude", "getattr")
    if exc == "KeyError":
        return site in ("setattr", "hash")  # Mapping takes it for a missing key
    return False


def key(site, nid):
    return (site, tuple(nid) if isinstance(nid, list) else nid)


class Plan:
    """on_hook callback executing a list of plan entries.

    entry: {"site", "nid", "nth" (None = always), "do": [...]}
    """

    def __init__(self, entries, nest=None):
        self.at = {}
        for e in entries:
            self.at.setdefault(key(e["site"], e["nid"]), []).append(e)
        self.nest = nest
        self.seen = {}
        self.raised = []
        self.fired = []

    def restart(self):
        self.seen = {}

    def __call__(self, sim, a, site, nid, n, obj):
        k = key(site, nid)
        n = self.seen.get((a.idx, k), 0)
        self.seen[a.idx, k] = n + 1
        for e in self.at.get(k, ()):
            if e["nth"] is None or e["nth"] == n:
                self.act(sim, a, e, obj)

    def act(self, sim, a, e, obj):
        do = e["do"]
        if do[0] == "raise":
            exc = EXC[do[1]]("injected", e["site"])
            self.raised.append(exc)
            self.fired.append(f"{do[1]}@{e['site']}")
            raise exc
        if do[0] == "gc":
            gc.collect()
            self.fired.append("gc")
        elif do[0] == "nest":
            self.fired.append("nested call@" + e["site"])
            self.nest(sim, a, do[1])
