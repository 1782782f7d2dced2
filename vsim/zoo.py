"""Workload classes.

Every user hook that jsonpickle may call reports to ``fire(site, nid)``; the
simulator decides there whether to yield, fail, nest a call, collect garbage
or mutate.  Instances carry a node id (``nid``) which is part of their state,
so a fault plan can name one object on both sides of a round trip.
"""

import collections
import dataclasses
import enum

import jsonpickle
from jsonpickle import handlers

_dispatch = None


def set_dispatch(func):
    global _dispatch
    _dispatch = func


def fire(site, nid, obj=None):
    if _dispatch is not None:
        return _dispatch(site, nid, obj)
    return None


class Plain:
    def __init__(self, nid):
        self.nid = nid


class Canary:
    """Shows that something still refers to it by being alive."""

    def __init__(self, nid):
        self.nid = nid


class Doc(str):
    """A document that can be referred to weakly."""


class Sub(Plain):
    """Subclass of an ordinary class."""


class Outer:
    class Inner:
        def __init__(self, nid):
            self.nid = nid


class Slots:
    __slots__ = ("nid", "a0", "a1", "a2", "a3", "a4")

    def __init__(self, nid):
        self.nid = nid


class SlotsSub(Slots):
    __slots__ = ("b0",)


class SlotExcl:
    """Slots object that leaves one slot out."""

    __slots__ = ("zed", "nid", "secret", "a0", "a1", "a2", "a3", "a4")
    _jsonpickle_exclude = ("secret", "other")

    def __init__(self, nid):
        self.nid = nid
        self.secret = nid
        self.zed = "z"


class SlotPriv:
    """Slots object with a private slot."""

    __slots__ = ("nid", "__p", "a0", "a1", "a2", "a3", "a4")

    def __init__(self, nid):
        self.nid = nid
        self.__p = [nid]


class Left:
    class Node:
        def __init__(self, nid):
            self.nid = nid


class Right:
    """Same module and same class name as Left.Node."""

    class Node:
        def __init__(self, nid):
            self.nid = nid


class SlotRead(Slots):
    """Slots object whose slot ``a2`` is read through a hook."""

    __slots__ = ()

    @property
    def a2(self):
        value = Slots.a2.__get__(self)
        fire("slotread", self.nid, self)
        return value

    @a2.setter
    def a2(self, value):
        Slots.a2.__set__(self, value)


class State:
    def __init__(self, nid):
        self.nid = nid

    def __getstate__(self):
        fire("getstate", self.nid, self)
        return dict(self.__dict__)

    def __setstate__(self, state):
        fire("setstate", state.get("nid"), self)
        self.__dict__.update(state)
        fire("setstate2", state.get("nid"), self)


class StateTuple:
    def __init__(self, nid):
        self.nid = nid
        self.kids = []

    def __getstate__(self):
        fire("getstate", self.nid, self)
        return (self.nid, self.kids)

    def __setstate__(self, state):
        fire("setstate", state[0], self)
        self.nid, self.kids = state


class StateTemp:
    """State made of containers that exist only during the call."""

    def __init__(self, nid):
        self.nid = nid
        self.kids = []

    def __getstate__(self):
        fire("getstate", self.nid, self)
        return {
            "nid": self.nid,
            "kids": list(self.kids),
            "tmp": [{"i": i, "n": self.nid} for i in range(3)],
            "raw": [bytes([i, self.nid % 200]) for i in range(2)],
        }

    def __setstate__(self, state):
        fire("setstate", state["nid"], self)
        self.nid = state["nid"]
        self.kids = list(state["kids"])
        self.tmp = state["tmp"]
        self.raw = state["raw"]


class StateSelf:
    """Hands out its own attribute dict as state."""

    _jsonpickle_exclude = ("secret",)

    def __init__(self, nid):
        self.nid = nid
        self.secret = [nid]

    def __getstate__(self):
        fire("getstate", self.nid, self)
        return self.__dict__

    def __setstate__(self, state):
        fire("setstate", state.get("nid"), self)
        self.__dict__.update(state)


class ClsAttr:
    """Class attributes named like keys and attributes of other objects."""

    k0 = "class k0"
    k1 = "class k1"
    a1 = "class a1"
    a2 = ["class a2"]

    def __init__(self, nid):
        self.nid = nid


class Bad:
    """Always fails to encode (used for nested calls that fail)."""

    def __init__(self, nid):
        self.nid = nid

    def __getstate__(self):
        fire("getstate", self.nid, self)
        raise Oops("bad", self.nid)


class BadSet:
    """Always fails to decode."""

    def __init__(self, nid):
        self.nid = nid

    def __getstate__(self):
        return dict(self.__dict__)

    def __setstate__(self, state):
        fire("setstate", state.get("nid"), self)
        raise Oops("badset", state.get("nid"))


class StateNoSet:
    def __init__(self, nid):
        self.nid = nid

    def __getstate__(self):
        fire("getstate", self.nid, self)
        return dict(self.__dict__)


def make_red(nid, *kids):
    fire("reconstruct", nid)
    obj = Red2.__new__(Red2)
    obj.nid = nid
    obj.kids = list(kids)
    return obj


class Red2:
    def __init__(self, nid, *kids):
        self.nid = nid
        self.kids = list(kids)

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (make_red, (self.nid, *self.kids))


class Red3:
    """Callable, args and a state dict applied by default rules."""

    def __init__(self, nid=None):
        fire("init", nid)
        self.nid = nid

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (Red3, (self.nid,), dict(self.__dict__))


class RedState:
    def __init__(self, nid=None):
        self.nid = nid

    def __reduce_ex__(self, protocol):
        fire("reduce", self.nid, self)
        return (RedState, (self.nid,), dict(self.__dict__))

    def __setstate__(self, state):
        fire("setstate", state["nid"], self)
        self.__dict__.update(state)


class RedList(list):
    def __init__(self, nid=None):
        list.__init__(self)
        self.nid = nid

    def extend(self, items):
        fire("extend", getattr(self, "nid", None), self)
        list.extend(self, items)

    def _gen(self):
        for i in range(len(self)):
            fire("listitem", self.nid, self)
            yield list.__getitem__(self, i)

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (RedList, (self.nid,), {"nid": self.nid}, self._gen())


class RedDict(dict):
    def __init__(self, nid=None):
        dict.__init__(self)
        self.nid = nid

    def __setitem__(self, k, v):
        fire("setitem", getattr(self, "nid", None), self)
        dict.__setitem__(self, k, v)

    def _gen(self):
        for k in list(self):
            fire("dictitem", self.nid, self)
            yield k, dict.__getitem__(self, k)

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (RedDict, (self.nid,), {"nid": self.nid}, None, self._gen())


def set_red6(obj, state):
    fire("setstate", state["nid"], obj)
    obj.__dict__.update(state)


class Red6:
    def __init__(self, nid=None):
        self.nid = nid

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (Red6, (self.nid,), dict(self.__dict__), None, None, set_red6)


def make_redtmp(pair, tail):
    fire("reconstruct", pair[0])
    obj = RedTmp(pair[0])
    obj.kids = list(pair[1])
    obj.tmp = [tail["n"], tail["x"].nid]
    return obj


class RedTmp:
    """Reduces to containers and objects that exist only for the call."""

    def __init__(self, nid):
        self.nid = nid
        self.kids = []

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (make_redtmp, ([self.nid, list(self.kids)], {"n": [self.nid], "x": Plain(self.nid)}))


class RedSelf:
    """Reduces to its own attribute dict and containers."""

    def __init__(self, nid=None):
        self.nid = nid
        self.kids = []

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (RedSelf, (self.nid,), self.__dict__)


class RedNew:
    """Delegates to the default protocol 2 reduction (copyreg.__newobj__)."""

    def __init__(self, nid):
        self.nid = nid

    def __reduce_ex__(self, protocol):
        fire("reduce", self.nid, self)
        return object.__reduce_ex__(self, protocol)


class NewArgs:
    def __new__(cls, nid, kid):
        fire("new", nid)
        obj = object.__new__(cls)
        obj.nid = nid
        obj.kid = kid
        return obj

    def __getnewargs__(self):
        fire("getnewargs", self.nid, self)
        return (self.nid, self.kid)


class NewArgsEx:
    def __new__(cls, nid, kid=None):
        fire("new", nid)
        obj = object.__new__(cls)
        obj.nid = nid
        obj.kid = kid
        return obj

    def __getnewargs_ex__(self):
        fire("getnewargs", self.nid, self)
        return ((self.nid,), {"kid": self.kid})


class InitArgs:
    def __init__(self, nid, kid=None):
        fire("init", nid)
        self.nid = nid
        self.kid = kid

    def __getinitargs__(self):
        fire("getinitargs", self.nid, self)
        return (self.nid, self.kid)


class ListSub(list):
    pass


class DictSub(dict):
    pass


class DictItems(dict):
    """dict subclass with a hook in items()."""

    def items(self):
        for k in list(self):
            fire("items", dict.get(self, "nid"), self)
            yield k, dict.__getitem__(self, k)


class ListIter(list):
    """list subclass with a hook in __iter__()."""

    def __iter__(self):
        for i in range(len(self)):
            v = list.__getitem__(self, i)
            fire("listiter", list.__getitem__(self, 0), self)
            yield v


class SetSub(set):
    pass


class TupleSub(tuple):
    pass


class StrSub(str):
    pass


class IntSub(int):
    pass


class ListApp(list):
    """list subclass with a hook in append()."""

    def append(self, v):
        fire("append", None, self)
        list.append(self, v)


class DictSet(dict):
    """dict subclass with a hook in __setitem__()."""

    def __setitem__(self, k, v):
        fire("setitem", None, self)
        dict.__setitem__(self, k, v)


class SetAttr:
    """Object with a hook in __setattr__()."""

    def __init__(self, nid):
        self.nid = nid

    def __setattr__(self, k, v):
        fire("setattr", self.__dict__.get("nid"), self)
        object.__setattr__(self, k, v)


NT = collections.namedtuple("NT", "nid kid extra")


@dataclasses.dataclass
class Data:
    nid: int
    a0: object = None
    a1: object = None
    a2: object = None
    a3: object = None
    a4: object = None


@dataclasses.dataclass(frozen=True)
class FrozenData:
    nid: int
    kid: object = None


@dataclasses.dataclass
class SlotsData:
    __slots__ = ("nid", "kid")
    nid: int
    kid: object


class Prop:
    def __init__(self, nid):
        self.nid = nid

    @property
    def twice(self):
        fire("prop", self.nid, self)
        return self.nid * 2

    @property
    def temp(self):
        fire("prop", self.nid, self)
        return [self.nid, "t"]


class Excl:
    _jsonpickle_exclude = ("secret",)

    def __init__(self, nid):
        self.nid = nid
        self.secret = object


class Color(enum.Enum):
    RED = 1
    BLUE = "blue"
    PAIR = (1, 2)


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 9


class Perm(enum.Flag):
    R = 1
    W = 2


class Oops(Exception):
    pass


class ReprKey:
    """Hashable key whose repr is a hook."""

    def __init__(self, nid):
        self.nid = nid

    def __repr__(self):
        fire("keyrepr", self.nid, self)
        return f"<key {self.nid}>"

    def __hash__(self):
        return self.nid

    def __eq__(self, other):
        return type(other) is ReprKey and other.nid == self.nid


class HashObj:
    """Hashable object whose hash is a hook."""

    def __init__(self, nid, kid=None):
        self.nid = nid
        self.kid = kid

    def __hash__(self):
        fire("hash", self.nid, self)
        return self.nid

    def __eq__(self, other):
        return self is other or (type(other) is HashObj and other.nid == self.nid)


class StateKey:
    """Hashable key with hooks for its state."""

    def __init__(self, nid):
        self.nid = nid

    def __getstate__(self):
        fire("getstate", self.nid, self)
        return {"nid": self.nid}

    def __setstate__(self, state):
        fire("setstate", state["nid"], self)
        self.nid = state["nid"]

    def __hash__(self):
        fire("hash", self.nid, self)
        return self.nid

    def __eq__(self, other):
        return type(other) is StateKey and other.nid == self.nid

    def __repr__(self):
        return f"StateKey({self.nid})"


class SetAdd(set):
    """set subclass with a hook in add()."""

    def add(self, v):
        fire("add", None, self)
        set.add(self, v)


class RedSeq:
    """Not a list, but reduces to list items."""

    def __init__(self, nid=None):
        self.nid = nid
        self.kids = []

    def extend(self, items):
        fire("extend", self.nid, self)
        self.kids.extend(items)

    def _gen(self):
        for kid in list(self.kids):
            fire("listitem", self.nid, self)
            yield kid

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (RedSeq, (self.nid,), None, self._gen())


class RedApp:
    """Reduces to list items and has append() only."""

    def __init__(self, nid=None):
        self.nid = nid
        self.kids = []

    def append(self, v):
        fire("append", self.nid, self)
        self.kids.append(v)

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (RedApp, (self.nid,), None, iter(list(self.kids)))


class RedMap:
    """Not a dict, but reduces to dict items."""

    def __init__(self, nid=None):
        self.nid = nid
        self.kids = []

    def __setitem__(self, k, v):
        fire("setitem", self.nid, self)
        self.kids.append(v)

    def _gen(self):
        for i, kid in enumerate(list(self.kids)):
            fire("dictitem", self.nid, self)
            yield "i%d" % i, kid

    def __reduce__(self):
        fire("reduce", self.nid, self)
        return (RedMap, (self.nid,), None, None, self._gen())


class ExclProp:
    """Computes what is left out."""

    def __init__(self, nid):
        self.nid = nid
        self.secret = "s"

    @property
    def _jsonpickle_exclude(self):
        fire("exclude", self.nid, self)
        return ["secret"]


class DynAttr:
    """Answers for attributes it does not have."""

    def __init__(self, nid):
        self.nid = nid

    def __getattr__(self, name):
        if not name.startswith("__"):
            fire("getattr", self.__dict__.get("nid"), self)
        raise AttributeError(name)


def make_local(*args):
    """Factory given through classes= instead of a class."""
    fire("init", None)
    obj = Plain(None)
    obj.args = list(args)
    return obj


class ReprObj:
    """Object whose repr is a hook (used with max_depth)."""

    def __init__(self, nid):
        self.nid = nid

    def __repr__(self):
        fire("repr", self.nid, self)
        return f"<obj {self.nid}>"


class Pull:
    """Iterator whose every step is a hook; pulled items are counted."""

    def __init__(self, nid, items):
        self._nid = nid
        self._items = items
        self._pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        fire("next", self._nid, self)
        if self._pos >= len(self._items):
            raise StopIteration
        self._pos += 1
        fire("pulled", (self._nid, self._pos - 1), self)
        return self._items[self._pos - 1]


def pull_gen(nid, items):
    for i, item in enumerate(items):
        fire("next", nid, None)
        fire("pulled", (nid, i), None)
        yield item
    fire("next", nid, None)


# -- handled classes -------------------------------------------------------


class _HNode:
    def __init__(self, nid):
        self.nid = nid
        self.kids = []


class Handled(_HNode):
    pass


class HInst(_HNode):
    pass


class HBase(_HNode):
    pass


class HChild(HBase):
    pass


class HCtx(_HNode):
    pass


class HTmp(_HNode):
    """Its handler flattens and restores objects of its own."""


class HKids(_HNode):
    """Handled through self.context attributes read late."""


class KidsHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        fire("h_flatten", obj.nid, obj)
        data["nid"] = obj.nid
        data["kids"] = [self.context.flatten(k, reset=False) for k in obj.kids]
        fire("h_flatten2", obj.nid, obj)
        return data

    def restore(self, data):
        nid = data["nid"]
        fire("h_restore", nid)
        cls = CLASSES[data["py/object"].rsplit(".", 1)[1]]
        obj = cls.__new__(cls)
        obj.nid = nid
        obj.kids = [self.context.restore(k, reset=False) for k in data["kids"]]
        fire("h_restore2", nid, obj)
        return obj


class CtxHandler(handlers.BaseHandler):
    """Uses handler_context; the seen value becomes part of the result."""

    def flatten(self, obj, data, handler_context=None):
        fire("h_flatten", obj.nid, obj)
        data["nid"] = obj.nid
        data["tag"] = handler_context
        data["kids"] = [self.context.flatten(k, reset=False) for k in obj.kids]
        fire("h_flatten2", obj.nid, obj)
        return data

    def restore(self, data, handler_context=None):
        fire("h_restore", data["nid"])
        obj = HCtx.__new__(HCtx)
        obj.nid = data["nid"]
        obj.tag = [data["tag"], handler_context]
        obj.kids = [self.context.restore(k, reset=False) for k in data["kids"]]
        fire("h_restore2", data["nid"], obj)
        return obj


class TmpHandler(handlers.BaseHandler):
    """Everything it passes on exists only for the call."""

    def flatten(self, obj, data):
        fire("h_flatten", obj.nid, obj)
        flat = self.context.flatten
        data["nid"] = obj.nid
        data["kids"] = flat(list(obj.kids), reset=False)
        data["tmp"] = [flat([obj.nid, i], reset=False) for i in range(2)]
        data["more"] = [flat(bytes([i, obj.nid % 99]), reset=False) for i in range(2)]
        data["same"] = [flat(Plain(obj.nid), reset=False), flat(Plain(-obj.nid), reset=False)]
        fire("h_flatten2", obj.nid, obj)
        return data

    def restore(self, data):
        nid = data["nid"]
        fire("h_restore", nid)
        rest = self.context.restore
        obj = HTmp.__new__(HTmp)
        obj.nid = nid
        obj.kids = rest(data["kids"], reset=False)
        obj.tmp = [len(rest(x, reset=False)) for x in data["tmp"]]
        obj.raw = [repr(rest(x, reset=False)) for x in data["more"]]
        obj.opts = [rest(x, reset=False).nid for x in data["same"]]
        fire("h_restore2", nid, obj)
        return obj


class LateHandler(handlers.BaseHandler):
    """Reads its context again after each child: detects a swapped context."""

    def flatten(self, obj, data):
        fire("h_flatten", obj.nid, obj)
        data["nid"] = obj.nid
        kids = []
        for k in obj.kids:
            fire("h_flatten1", obj.nid, obj)
            kids.append(self.context.flatten(k, reset=False))
        data["kids"] = kids
        data["opts"] = [
            bool(getattr(self.context, "unpicklable", None)),
            bool(getattr(self.context, "keys", None)),
        ]
        return data

    def restore(self, data):
        fire("h_restore", data["nid"])
        obj = HKids.__new__(HKids)
        obj.nid = data["nid"]
        obj.kids = []
        for k in data["kids"]:
            fire("h_restore1", data["nid"])
            obj.kids.append(self.context.restore(k, reset=False))
        obj.opts = data["opts"]
        return obj


class HRaw(_HNode):
    """Its handler returns something no backend can write."""


class RawHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        fire("h_flatten", obj.nid, obj)
        data["raw"] = {obj.nid}
        return data

    def restore(self, data):
        raise Oops("never")


CLASSES = {
    c.__name__: c
    for c in list(globals().values())
    if isinstance(c, type) and c.__module__ == __name__
}


def register_zoo_handlers():
    handlers.register(Handled, KidsHandler)
    handlers.register(HInst, KidsHandler(None))
    handlers.register(HBase, KidsHandler, base=True)
    handlers.register(HCtx, CtxHandler)
    handlers.register(HTmp, TmpHandler)
    handlers.register(HKids, LateHandler(None))
    handlers.register(HRaw, RawHandler)


class _Ns:
    pass


def fn_a(x=None):
    return x


def fn_b(x=None):
    return x


def list_factory():
    return []
