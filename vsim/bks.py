"""Recording JSON backends: the real modules wrapped, plus scripted stubs.

Every call of a backend function is logged per thread with its extra
arguments; a script may make the n-th call of a backend fail.  Stubs write
ordinary JSON padded with a number of blanks unique in the execution, so the
text tells which call produced it.
"""

import json as _json
import sys
import threading
import types

REAL = ("simplejson", "json", "ujson")
STUBS = ("simbk_a", "simbk_b", "simbk_c", "simpkg.sub")
# (dumps, loads, exception) names every stub offers, plus broken variants
FUNCS = {
    "plain": ("dumps", "loads", ValueError),
    "own": ("dumps", "loads", "DecErr"),
    "alt": ("to_text", "from_text", "DecErr"),
    "alt2": ("to_text", "loads", ValueError),
    "nodumps": ("no_dumps", "loads", ValueError),
    "noloads": ("dumps", "no_loads", ValueError),
    "noexc": ("dumps", "loads", "NoErr"),
}
BROKEN = ("nodumps", "noloads", "noexc")

_dumps, _loads = _json.dumps, _json.loads
_log = {}
_script = {}
_count = [0]
_exc = {}
active = False


class Oops(Exception):
    pass


def _fire(site, name):
    from . import zoo  # imports jsonpickle, which must come after install()

    zoo.fire(site, name)


def reset(script=None):
    """Start of an execution: {backend: [outcome, ...]}."""
    global active
    _log.clear()
    _script.clear()
    _script.update({k: list(v) for k, v in (script or {}).items()})
    _count[0] = 0
    active = True


def start():
    """New empty log for the calling thread."""
    _log[threading.get_ident()] = out = []
    return out


def _failure(name):
    s = _script.get(name)
    if not s:
        return None
    k = s.pop(0)
    if k == "ok":
        return None
    if k == "DecErr":
        return _exc[name]("injected")
    return {
        "ValueError": ValueError, "TypeError": TypeError, "Oops": Oops,
        "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
        "KeyError": KeyError, "AttributeError": AttributeError,
    }[k]("injected")  # fmt: skip


def _wrap(name, fname, real):
    def backend_function(payload, *args, **kwargs):
        log = _log.get(threading.get_ident()) if active else None
        if log is None:
            return real(payload, *args, **kwargs)
        entry = {"b": name, "f": fname, "a": repr(args), "k": _kw(kwargs), "mro": ()}
        log.append(entry)
        _fire("backend", name)
        try:
            exc = _failure(name)
            if exc is not None:
                entry["injected"] = True
                raise exc
            value = real(payload, *args, **kwargs)
        except BaseException as e:
            entry["exc"] = type(e).__name__
            entry["mro"] = [c.__name__ for c in type(e).__mro__]
            entry["e"] = e
            raise
        entry["value"] = value
        return value

    backend_function.__name__ = fname
    return backend_function


def _kw(kwargs):
    return repr(sorted(kwargs.items()))


def _stub_dumps(obj, *args, **kwargs):
    _count[0] += 1
    return _dumps(obj) + " " * _count[0]


def _stub_loads(text, *args, **kwargs):
    _count[0] += 1
    return {"by": _count[0], "v": _loads(text)}


def install():
    """Before jsonpickle is imported."""
    for name in REAL:
        mod = __import__(name)
        mod.dumps = _wrap(name, "dumps", mod.dumps)
        mod.loads = _wrap(name, "loads", mod.loads)
    for name in STUBS:
        mod = types.ModuleType(name)
        for f, real in (("dumps", _stub_dumps), ("to_text", _stub_dumps), ("loads", _stub_loads), ("from_text", _stub_loads)):
            setattr(mod, f, _wrap(name, f, real))
        mod.DecErr = _exc[name] = type("DecErr", (Exception,), {"__module__": name})
        sys.modules[name] = mod
        if "." in name:
            top, sub = name.split(".")
            pkg = sys.modules.setdefault(top, types.ModuleType(top))
            pkg.__path__ = []
            setattr(pkg, sub, mod)
    for name in REAL:
        _exc[name] = ValueError
