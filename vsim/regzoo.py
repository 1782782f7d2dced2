"""Classes and handlers for histories of handler registrations."""

import abc
import uuid

from jsonpickle import handlers

from . import zoo


class R0:
    pass


class R1(R0):
    pass


class R2(R1):
    pass


class S0:
    pass


class D0(R1, S0):
    pass


class Holder:
    class N(R0):
        pass


class St:
    def __getstate__(self):
        return {"nid": self.nid, "kids": self.kids}

    def __setstate__(self, state):
        self.__dict__.update(state)


class Sl:
    __slots__ = ("nid", "kids", "by")


class DSub(dict):
    """Its state is in its items."""


class Meta(type):
    pass


class M0(metaclass=Meta):
    pass


class A0(abc.ABC):
    pass


class V0:
    """A subclass of A0 only by declaration."""


A0.register(V0)


class Twin(S0):
    """Replaced below by another class of the same name."""


OldTwin = Twin


class Twin(S0):  # noqa: F811 - the point of it
    pass


# a class that no import finds
Ghost = type("Ghost", (R0,), {"__module__": __name__})
_GHOST = Ghost
del Ghost

CLASSES = {
    "R0": R0, "R1": R1, "R2": R2, "S0": S0, "D0": D0, "N": Holder.N, "St": St, "Sl": Sl, "DSub": DSub,
    "M0": M0, "A0": A0, "V0": V0, "Twin": Twin, "OldTwin": OldTwin, "Ghost": _GHOST, "UUID": uuid.UUID,
}  # fmt: skip
SIMPLE = ["R0", "R1", "R2", "S0", "D0", "N", "Sl", "M0", "A0", "V0", "Twin"]
LEAVES = ["Ghost", "UUID"]
NAMES = {n: f"{c.__module__}.{c.__qualname__}" for n, c in CLASSES.items()}
# what a stored name stands for when it is read
READ = {n: {"OldTwin": "Twin", "Ghost": None}.get(n, n) for n in CLASSES}
# unrelated classes, only ever registered
OTHERS = {f"X{i}": type(f"X{i}", (), {"__module__": __name__}) for i in range(24)}
CLASSES.update(OTHERS)
NAMES.update({n: f"{__name__}.{n}" for n in OTHERS})


def make(k, nid, kids):
    if k == "UUID":
        return uuid.UUID(int=nid)
    if k == "DSub":
        return DSub(nid=nid, kids=kids)
    o = CLASSES[k]()
    o.nid = nid
    if k != "Ghost":
        o.kids = kids
    return o


class Base(handlers.BaseHandler):
    hid = None

    def flatten(self, obj, data):
        if isinstance(obj, uuid.UUID):
            nid, kids = obj.int, None
        elif isinstance(obj, DSub):
            nid, kids = obj["nid"], obj["kids"]
        else:
            nid, kids = obj.nid, getattr(obj, "kids", None)
        data["nid"] = nid
        data["by"] = self.hid
        zoo.fire("flatten " + self.hid, nid)
        if kids is not None:
            data["kids"] = self.context.flatten(kids, reset=False)
        return data

    def restore(self, data):
        d = data.get("py/state", data)
        if "hex" in d:
            d = {"nid": int(d["hex"], 16)}
        elif isinstance(d.get("int"), int):
            d = {"nid": d["int"]}
        zoo.fire("restore " + self.hid, d["nid"])
        o = R0()
        o.nid = d["nid"]
        o.kids = self.context.restore(d["kids"], reset=False) if "kids" in d else None
        return o


class Inst(Base):
    """Registered as an instance."""

    def __init__(self, hid):
        self.hid = hid


class Empty(Inst):
    """An instance that is false."""

    def __len__(self):
        return 0


NHANDLERS = 8
KINDS = ["class", "handles", "deco", "class", "inst", "inst", "empty"]
HCLS = [type(f"H{i}", (Base,), {"__module__": __name__, "hid": f"H{i}"}) for i in range(NHANDLERS)]


def register(cls, h, kind, base):
    """One registration through one of the public ways; the handler's name."""
    if kind == "inst":
        handlers.register(cls, Inst(f"I{h}"), base=base)
        return
    if kind == "empty":
        handlers.register(cls, Empty(f"E{h}"), base=base)
        return
    H = HCLS[h]
    if kind == "handles" and not base:
        H.handles(cls)
    elif kind == "deco":
        handlers.register(cls, base=base)(H)
    else:
        handlers.register(cls, H, base=base)


def hid(h, kind):
    return {"inst": "I", "empty": "E"}.get(kind, "H") + str(h)
