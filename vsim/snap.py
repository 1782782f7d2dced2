"""Identity snapshots: what an object graph consists of, object by object."""

import array
import collections
import functools
import types

from .graph import zoo_id

_ATOMS = (str, int, float, complex, bytes, bool, type(None), type, types.FunctionType, types.BuiltinFunctionType,
          types.ModuleType, types.MethodType, range, slice)  # fmt: skip


class Snapshot:
    """Remembers every reachable object and the identities it is made of."""

    def __init__(self, *roots):
        self.keep = []
        self.seen = {}
        todo = list(roots)
        while todo:
            o = todo.pop()
            i = zoo_id(o)
            if i in self.seen or type(o) in _ATOMS or isinstance(o, type):
                continue
            parts, kids = shallow(o)
            self.seen[i] = (o, parts)
            self.keep.append(kids)
            todo.extend(kids)

    def changes(self):
        """Differences between then and now, as readable strings."""
        out = []
        for o, parts in self.seen.values():
            now, kids = shallow(o)
            if now != parts:
                for k in parts:
                    if now.get(k) != parts[k]:
                        out.append(f"{type(o).__name__} {getattr(o, 'nid', '')}: {k}")
                out.extend(f"{type(o).__name__}: {k} appeared" for k in now if k not in parts)
        return sorted(out)


def shallow(o):
    """(comparable description, referenced objects)"""
    parts, kids = {}, []
    t = type(o)

    def refs(name, xs):
        xs = list(xs)
        kids.extend(xs)
        parts[name] = [zoo_id(x) for x in xs]

    if isinstance(o, list):
        refs("items", list.__iter__(o))
    elif isinstance(o, tuple):
        refs("items", tuple.__iter__(o))
    elif isinstance(o, dict):
        refs("keys", dict.keys(o))
        refs("values", dict.values(o))
    elif isinstance(o, (set, frozenset)):
        kids.extend(o)
        parts["members"] = sorted(zoo_id(x) for x in o)
    elif isinstance(o, collections.deque):
        refs("items", o)
        parts["maxlen"] = o.maxlen
    elif isinstance(o, (bytearray, array.array)):
        parts["bytes"] = bytes(o)
    elif isinstance(o, functools.partial):
        refs("partial", [o.func, o.args, o.keywords])
    elif isinstance(o, BaseException):
        refs("args", [o.args])
    if isinstance(o, collections.defaultdict):
        refs("factory", [o.default_factory])
    mod = t.__module__.split(".")[0]
    if mod == "numpy":
        import numpy as np

        if isinstance(o, np.ndarray):
            parts["array"] = [str(o.dtype), o.shape, o.strides, o.flags.writeable, zoo_id(o.base)]
            if o.dtype.hasobject:
                refs("cells", o.ravel().tolist())
            else:
                parts["data"] = o.tobytes()
        return parts, kids
    if mod in ("pandas", "gmpy2"):
        from . import graph

        parts["value"] = graph.canon(o)
        attrs = getattr(o, "attrs", None)
        if attrs:
            parts["attrs"] = repr(attrs)
        return parts, kids
    if mod in ("vsim", "collections", "types", "builtins", "nowhere"):
        try:
            d = object.__getattribute__(o, "__dict__")
        except AttributeError:
            d = None
        if type(d) is dict:
            parts["__dict__"] = zoo_id(d)
            kids.append(d)
        for c in t.__mro__:
            for name, member in list(c.__dict__.items()):
                if type(member) is types.MemberDescriptorType and mod == "vsim":
                    try:
                        v = member.__get__(o)
                    except AttributeError:
                        parts["slot " + name] = None
                    else:
                        refs("slot " + name, [v])
    return parts, kids
