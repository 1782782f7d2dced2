"""Object graph specs: generation, construction and canonical form."""

import _thread
import array
import collections
import datetime
import decimal
import enum
import fractions
import functools
import math
import pathlib
import queue
import re
import types
import uuid

from . import late, zoo

# -- leaves ----------------------------------------------------------------

STRINGS = [
    "", "a", "b", "x y", "é中", "\U0001f600", "py/object", "py/id",
    "json://1", "null", "true", "1", "\n\t\"\\", "k" * 40, " ", "py/tuple",
]  # fmt: skip
FLOATS = [0.0, -0.0, 1.5, -2.25e-7, 1e300, 0.1, 3.0]
INTS = [0, 1, -1, 7, 255, 2**31, -(2**53), 2**53 - 1, 42]

LEAF_KINDS = [
    "int", "float", "str", "bool", "none", "bytes", "bytearray", "datetime",
    "datetz", "date", "time", "timedelta", "decimal", "complex", "fraction",
    "uuid", "regex", "path", "array", "range", "type", "func", "module",
    "enum", "ienum", "flag", "set", "frozenset", "deque", "counter", "odict",
    "ddict", "tuple", "exc", "bigint", "tz", "slice", "strsub", "intsub",
    "setsub", "partial", "late", "lock", "queue",
]  # fmt: skip
PRIM_KINDS = ["int", "float", "str", "bool", "none"]
HASH_KINDS = ["int", "str", "bool", "none", "tuple", "frozenset", "enum"]


def gen_leaf(rng, kinds=None):
    k = rng.choice(kinds or LEAF_KINDS)
    return [k, rng.randrange(1 << 16)]


def _tz(n):
    return datetime.timezone(datetime.timedelta(minutes=(n % 48 - 24) * 30))


def make_leaf(spec):
    k, n = spec
    if k == "const":
        return n
    if k == "canary":
        return zoo.Canary(n)
    if k == "mark":
        return "mark:%d" % n
    if k == "int":
        return INTS[n % len(INTS)] + (n >> 8) % 3
    if k == "bigint":
        return (1 << 70) + n
    if k == "float":
        return FLOATS[n % len(FLOATS)]
    if k == "str":
        s = STRINGS[n % len(STRINGS)]
        return s + str((n >> 8) % 4) if n & 64 else s
    if k == "bool":
        return bool(n & 1)
    if k == "none":
        return None
    if k == "bytes":
        return bytes([n % 251, (n >> 8) % 256, n % 7] * (n % 3))
    if k == "bytearray":
        return bytearray([n % 251, 0, (n >> 8) % 256][: n % 4])
    if k == "datetime":
        return datetime.datetime(
            1990 + n % 60, 1 + n % 12, 1 + n % 28, n % 24, n % 60, n % 59, n
        )
    if k == "datetz":
        return datetime.datetime(1990 + n % 60, 2, 3, 4, 5, n % 60, n, tzinfo=_tz(n))
    if k == "date":
        return datetime.date(1900 + n % 200, 1 + n % 12, 1 + n % 28)
    if k == "time":
        return datetime.time(n % 24, n % 60, n % 60, n)
    if k == "timedelta":
        return datetime.timedelta(days=n % 400 - 200, seconds=n % 1000, microseconds=n)
    if k == "tz":
        return _tz(n)
    if k == "decimal":
        return decimal.Decimal(n) / 8
    if k == "complex":
        return complex(n % 10, -(n % 7) / 2)
    if k == "fraction":
        return fractions.Fraction(n % 100, 7 + n % 5)
    if k == "uuid":
        return uuid.UUID(int=(n * 0x9E3779B97F4A7C15) % (1 << 128))
    if k == "regex":
        return re.compile(["a+b", "x(y|z)*", r"\d{%d}" % (n % 5)][n % 3], re.I if n & 1 else 0)
    if k == "path":
        p = pathlib.PurePosixPath("/tmp") / str(n % 100)
        # fill its lazily computed slots so that it no longer changes by itself
        return p if (p.drive, p.parts, str(p), hash(p), p < p, repr(p)) else None
    if k == "array":
        return array.array("ihd"[n % 3], [n % 100, 2, 3][: n % 4])
    if k == "range":
        return range(n % 5, n % 50, 1 + n % 3)
    if k == "slice":
        return slice(n % 3, n % 9)
    if k == "type":
        return [zoo.Plain, int, dict, zoo.Outer.Inner, ValueError, zoo.Color][n % 6]
    if k == "func":
        return [zoo.fn_a, zoo.fn_b, math.sqrt, zoo.make_red][n % 4]
    if k == "module":
        return [math, zoo, collections][n % 3]
    if k == "enum":
        return list(zoo.Color)[n % 3]
    if k == "ienum":
        return list(zoo.Level)[n % 2]
    if k == "flag":
        return list(zoo.Perm)[n % 2]
    if k == "set":
        return {(n >> i) % 97 for i in range(n % 5)}
    if k == "frozenset":
        return frozenset((n >> i) % 97 for i in range(n % 4))
    if k == "deque":
        return collections.deque([n % 9, "d", None][: n % 4], maxlen=None)
    if k == "counter":
        return collections.Counter({"a": n % 5, "b": 2})
    if k == "odict":
        return collections.OrderedDict([("z", n % 9), ("a", 1), ("m", None)][: n % 4])
    if k == "ddict":
        d = collections.defaultdict([list, int, dict][n % 3])
        d["q"] = n % 9
        return d
    if k == "tuple":
        return (n % 9, "t", (n >> 4) % 3)[: 1 + n % 3]
    if k == "strsub":
        o = zoo.StrSub(["", "abc", "py/id"][n % 3])
        o.extra = n % 5
        return o
    if k == "intsub":
        o = zoo.IntSub(n % 9)
        o.extra = [n % 5]
        return o
    if k == "setsub":
        o = zoo.SetSub((n >> i) % 97 for i in range(n % 4))
        o.extra = n % 5
        return o
    if k == "partial":
        return functools.partial(zoo.fn_a, n % 9) if n & 1 else functools.partial(int, base=2 + n % 9)
    if k == "late":
        return [late.fn, late.Late, late, late.Late.Inner][n % 4]
    if k == "lock":
        o = _thread.allocate_lock()
        if n & 1:
            o.acquire()
        return o
    if k == "queue":
        return queue.Queue()
    if k == "exc":
        return zoo.Oops("boom", n % 100)
    if k.startswith(("np", "pd", "gm")):
        from . import heavy

        return heavy.make_leaf(k, n)
    raise ValueError(k)


# -- nodes -----------------------------------------------------------------

# created first, filled later: may be part of cycles
SHELL = {
    "list", "dict", "Plain", "Sub", "Inner", "Slots", "SlotsSub", "State",
    "StateNoSet", "Data", "DictSub", "ListSub", "Prop", "Excl", "SlotRead",
    "DictItems", "ListIter", "ReprObj", "Bad", "BadSet", "HRaw",
    "ListApp", "DictSet", "SetAttr", "SlotExcl", "SlotPriv", "LeftNode",
    "RightNode", "UserDict", "UserList", "StateSelf", "ClsAttr", "ExclProp", "DynAttr",
    "Late",
}  # fmt: skip
# filled late but cycles through them are not promised to survive
OPEN = {
    "StateTuple", "StateTemp", "Red3", "RedState", "RedList", "RedDict",
    "Red6", "RedNew", "Handled", "HInst", "HBase", "HChild", "HCtx", "HKids",
    "SNS", "odict", "ddict", "exc", "HTmp", "RedTmp", "RedSelf",
    "RedSeq", "RedApp", "RedMap",
}  # fmt: skip
CLOSED = {
    "tuple", "Red2", "NewArgs", "NewArgsEx", "InitArgs", "NT", "FrozenData",
    "SlotsData", "TupleSub", "HSet", "SetAdd", "HashObj",
}  # fmt: skip
# used up by a call, so only for those who build a graph per call
ONCE = ["Pull", "PullGen"]
CLOSED |= set(ONCE)
# containers of the numpy/pandas extensions holding other nodes
HNODES = ["NpObj", "PdObj", "PdCell"]
CLOSED |= set(HNODES)
_SEQ = {"list", "ListSub", "ListIter", "ListApp", "RedList", "tuple", "NT", "TupleSub", "UserDict", "UserList", "HSet", "SetAdd", "RedSeq", "RedApp", *ONCE, *HNODES}
MAPS = ("dict", "DictSub", "RedDict", "DictItems", "DictSet", "UserDict", "odict", "ddict")
FAILING = {"Bad", "BadSet", "HRaw"}
ALL = sorted((SHELL | OPEN | CLOSED) - FAILING - set(HNODES) - set(ONCE))
# kinds whose user hooks run on the way out or in
HOOKED = [
    "State", "StateTuple", "StateTemp", "StateNoSet", "Red2", "Red3", "RedState",
    "RedList", "RedDict", "Red6", "RedNew", "NewArgs", "NewArgsEx", "InitArgs",
    "DictItems", "ListIter", "SlotRead", "Handled", "HInst", "HBase", "HChild",
    "HCtx", "HKids", "ReprObj", "ListApp", "DictSet", "SetAttr", "HTmp", "RedTmp",
    "StateSelf", "RedSelf", "RedSeq", "RedApp", "RedMap", "HSet", "SetAdd", "ExclProp",
    "DynAttr",
]  # fmt: skip


def ensure_hooked(rng, g, kinds=None):
    """Give a graph at least one node with hooks."""
    if any(n["k"] in HOOKED or n["k"] in ONCE for n in g["nodes"]):
        return g
    ks = [k for k in (kinds or HOOKED) if not g["cyc"] or k in SAFE_CYCLE]
    if any(n["k"] in HNODES for n in g["nodes"]):
        ks = [k for k in ks if k not in _SEQ]
    if ks:
        n = rng.choice(g["nodes"])
        if n["k"] not in NKID or n["k"] in CLOSED:
            n["k"] = rng.choice([k for k in ks if k not in NKID] or ks)
            n.pop("ks", None)
    return g


SAFE_CYCLE = [
    "list", "dict", "Plain", "Sub", "Inner", "Slots", "SlotsSub", "State",
    "Data", "DictSub", "ListSub",
]  # fmt: skip
NKID = {
    "NewArgs": 1, "NewArgsEx": 1, "InitArgs": 1, "NT": 2, "FrozenData": 1,
    "SlotsData": 1, "HashObj": 1,
}  # fmt: skip
ARITY = 5


def gen_graph(
    rng, size=None, kinds=None, leaves=None, cyc=None, share=None, keyed=False,
    heavy_kinds=(),
):  # fmt: skip
    """A random graph spec; edges point forward except for explicit cycles."""
    size = size or rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
    if cyc is None:
        cyc = rng.random() < 0.35
    share = rng.choice([0.1, 0.3, 0.6]) if share is None else share
    kinds = list(kinds or ALL)
    # swarm: most graphs use few kinds
    if rng.random() < 0.7:
        kinds = rng.sample(kinds, min(len(kinds), rng.randint(1, 6)))
        if rng.random() < 0.6:
            kinds += ["list", "dict"]
    leaves = list(leaves or LEAF_KINDS)
    if rng.random() < 0.7:
        leaves = rng.sample(leaves, min(len(leaves), rng.randint(1, 5)))
    leaves = leaves + list(heavy_kinds)
    if cyc:
        kinds = [k for k in kinds if k in SAFE_CYCLE] or ["list", "Plain"]
    nodes = []
    for i in range(size):
        k = rng.choice(kinds)
        nodes.append({"k": k, "c": []})
    if size > 1 and NKID.get(nodes[0]["k"]) is None and rng.random() < 0.5:
        nodes[0]["k"] = rng.choice(["list", "dict", nodes[0]["k"]])
    # spanning: each node j>0 gets a parent i<j
    for j in range(1, size):
        for _ in range(20):
            i = rng.randrange(max(0, j - 4), j)
            if len(nodes[i]["c"]) < NKID.get(nodes[i]["k"], ARITY):
                nodes[i]["c"].append(["n", j])
                break
    for i in range(size):
        room = NKID.get(nodes[i]["k"], ARITY) - len(nodes[i]["c"])
        for _ in range(rng.randint(0, min(room, 3))):
            r = rng.random()
            if r < share and i + 1 < size:
                nodes[i]["c"].append(["n", rng.randrange(i + 1, size)])
            elif cyc and r < share + 0.25:
                nodes[i]["c"].append(["n", rng.randrange(0, size)])
            else:
                nodes[i]["c"].append(["v", gen_leaf(rng, leaves)])
        rng.shuffle(nodes[i]["c"])
        if nodes[i]["k"] in MAPS:
            nodes[i]["ks"] = gen_keys(rng, len(nodes[i]["c"]), keyed)
    for node in nodes:
        if node["k"] in HNODES:
            node["c"] = [e if _cell_ok(e, nodes) else ["v", ["int", n]] for n, e in enumerate(node["c"])]
    return {"nodes": nodes, "cyc": bool(cyc)}


def _cell_ok(e, nodes):
    """numpy itself crashes on ragged nested sequences in object arrays."""
    if e[0] == "n":
        return nodes[e[1]]["k"] not in _SEQ
    return e[1][0] not in ("array", "range", "deque", "tuple", "bytearray", "bytes") and "_" not in e[1][0]


def gen_keys(rng, n, keyed):
    ks = []
    for i in range(n):
        if keyed and rng.random() < 0.4:
            ks.append([rng.choice(["int", "tuple", "bool", "none", "float", "enum", "key", "skey"]), 300 * i + rng.randrange(200)])
        else:
            ks.append(["s", rng.choice(["k%d", "key %d", "a%d", "z%d", "py%d", "é%d"]) % i])
    # equal keys such as 1 and True would collapse
    seen = set()
    out = []
    for i, k in enumerate(ks):
        v = make_key(k)
        if v in seen:
            k = ["s", "u%d" % i]
            v = "u%d" % i
        seen.add(v)
        out.append(k)
    return out


def repr_keys(rng, graphs):
    """Give mappings keys whose repr is a hook."""
    for g in graphs:
        for n in g["nodes"]:
            if "ks" in n:
                n["ks"] = [["rkey", 500 + i] if rng.random() < 0.5 else k for i, k in enumerate(n["ks"])]


def make_key(k):
    if k[0] == "s":
        return k[1]
    if k[0] == "key":
        return zoo.FrozenData(k[1], None)
    if k[0] == "skey":
        return zoo.StateKey(50000 + k[1])
    if k[0] == "rkey":
        return zoo.ReprKey(k[1])
    return make_leaf(k)


def _shell(k, nid):
    if k == "list":
        return []
    if k == "dict":
        return {}
    if k == "ListSub":
        return zoo.ListSub()
    if k == "DictSub":
        return zoo.DictSub()
    if k == "DictItems":
        return zoo.DictItems()
    if k == "ListIter":
        return zoo.ListIter()
    if k == "ListApp":
        return zoo.ListApp()
    if k == "DictSet":
        return zoo.DictSet()
    if k == "Inner":
        return zoo.Outer.Inner(nid)
    if k == "Late":
        return late.Late(nid)
    if k == "LeftNode":
        return zoo.Left.Node(nid)
    if k == "RightNode":
        return zoo.Right.Node(nid)
    if k == "UserDict":
        return collections.UserDict()
    if k == "UserList":
        return collections.UserList()
    if k == "SNS":
        return types.SimpleNamespace(nid=nid)
    if k == "odict":
        return collections.OrderedDict()
    if k == "ddict":
        return collections.defaultdict(list)
    if k == "exc":
        return zoo.Oops("boom", nid)
    return zoo.CLASSES[k](nid)


def _fill(k, obj, node, kids, nid):
    if k in ("list", "ListSub", "RedList", "ListApp", "UserList"):
        obj.extend(kids)
    elif k == "ListIter":
        list.append(obj, nid)
        list.extend(obj, kids)
    elif k in MAPS:
        if k == "DictItems":
            obj["nid"] = nid
        ks = node.get("ks") or []
        for i, kid in enumerate(kids):
            key = make_key(ks[i]) if i < len(ks) else "x%d" % i
            obj[key] = kid
    elif hasattr(obj, "kids") and k not in ("Plain",):
        obj.kids.extend(kids)
    else:
        for i, kid in enumerate(kids):
            setattr(obj, "a%d" % i, kid)


def _closed(k, nid, kids):
    pad = list(kids) + [None] * 3
    if k == "tuple":
        return tuple(kids)
    if k == "TupleSub":
        return zoo.TupleSub(kids)
    if k == "Red2":
        return zoo.Red2(nid, *kids)
    if k == "NewArgs":
        return zoo.NewArgs(nid, pad[0])
    if k == "NewArgsEx":
        return zoo.NewArgsEx(nid, pad[0])
    if k == "InitArgs":
        return zoo.InitArgs(nid, pad[0])
    if k == "NT":
        return zoo.NT(nid, pad[0], pad[1])
    if k == "FrozenData":
        return zoo.FrozenData(nid, pad[0])
    if k == "SlotsData":
        return zoo.SlotsData(nid, pad[0])
    if k == "HashObj":
        return zoo.HashObj(nid, pad[0])
    if k in ("HSet", "SetAdd"):
        items = [zoo.HashObj(100 * nid + i, kid) for i, kid in enumerate(kids)]
        return set(items) if k == "HSet" else zoo.SetAdd(items)
    if k == "Pull":
        return zoo.Pull(nid, list(kids))
    if k == "PullGen":
        return zoo.pull_gen(nid, list(kids))
    if k in HNODES:
        from . import heavy

        return heavy.make_node(k, kids)
    raise ValueError(k)


def build(spec, base=100, nodes_out=None):
    """Construct the graph; node i has nid base+i."""
    nodes = spec["nodes"]
    objs = [None] * len(nodes)
    for i, node in enumerate(nodes):
        if node["k"] not in CLOSED:
            objs[i] = _shell(node["k"], base + i)

    def kid(e):
        return objs[e[1]] if e[0] == "n" else make_leaf(e[1])

    for i in range(len(nodes) - 1, -1, -1):
        if nodes[i]["k"] in CLOSED:
            objs[i] = _closed(nodes[i]["k"], base + i, [kid(e) for e in nodes[i]["c"]])
    for i, node in enumerate(nodes):
        if node["k"] not in CLOSED:
            _fill(node["k"], objs[i], node, [kid(e) for e in node["c"]], base + i)
    if nodes_out is not None:
        nodes_out.extend(objs)
    return objs[0]


_PROPS = {"list", "dict", "Plain", "Prop", "Sub", "Inner", "tuple", "State"}


def props_ok(*specs):
    """include_properties also walks class attributes: keep to plain shapes."""
    return all(
        node["k"] in _PROPS
        and all(e[0] == "n" or e[1][0] in PRIM_KINDS for e in node["c"])
        and all(k[0] == "s" for k in node.get("ks", ()))
        for g in specs
        for node in g["nodes"]
    )


def drop_node(spec, j):
    """Spec without node j (references become None), for minimisation."""
    nodes = []
    for i, node in enumerate(spec["nodes"]):
        if i == j:
            continue
        c, ks = [], []
        for n, e in enumerate(node["c"]):
            if e[0] == "n":
                if e[1] == j:
                    continue
                e = ["n", e[1] - (e[1] > j)]
            c.append(e)
            if "ks" in node and n < len(node["ks"]):
                ks.append(node["ks"][n])
        new = {"k": node["k"], "c": c}
        if "ks" in node:
            new["ks"] = ks
        nodes.append(new)
    return dict(spec, nodes=nodes)


# -- canonical form --------------------------------------------------------

_VALUE = (
    datetime.datetime, datetime.date, datetime.time, datetime.timedelta,
    datetime.tzinfo, decimal.Decimal, fractions.Fraction, uuid.UUID,
    pathlib.PurePath, range, slice, array.array, bytes, bytearray,
)  # fmt: skip


# attributes that hooks add or drop on purpose during a round trip
EXTRA = {"tag", "opts", "tmp", "raw", "secret"}


def canon(obj, loose=False):
    """A nested list describing values, types and sharing of a graph."""
    return _Canon(loose).of(obj)


def _tname(t):
    return f"{t.__module__}.{t.__qualname__}"


class _Canon:
    def __init__(self, loose=False, depth=0):
        self.seen = {}
        self.keep = []
        self.loose = loose
        self.depth = depth

    def of(self, o):
        t = type(o)
        if o is None or t in (bool, int, str):
            return [t.__name__, o]
        if t is float:
            return ["float", repr(o)]
        if t in (bytes, bytearray):
            return [t.__name__, o.hex()]
        if t is complex:
            return ["complex", repr(o)]
        if isinstance(o, enum.Enum):
            return ["enum", _tname(t), o.name]
        if isinstance(o, type):
            return ["type", _tname(o)]
        if isinstance(
            o, (types.FunctionType, types.BuiltinFunctionType, types.MethodType)
        ):
            return ["func", getattr(o, "__module__", None), o.__qualname__]
        if isinstance(o, types.ModuleType):
            return ["module", o.__name__]
        if isinstance(o, _VALUE):
            return ["value", _tname(t), repr(o)]
        if isinstance(o, re.Pattern):
            return ["regex", o.pattern, int(o.flags)]
        if t is tuple:
            return ["tuple", [self.of(x) for x in o]]
        if t in (set, frozenset):
            return [t.__name__, sorted((self.of(x) for x in o), key=repr)]
        mod = t.__module__.split(".")[0]
        if mod in ("numpy", "pandas", "gmpy2"):
            from . import heavy

            return heavy.canon(o, self)
        if mod == "jsonpickle" and not callable(o):
            return ["placeholder"]  # of a reference that leads nowhere
        if t is _thread.LockType:
            return ["lock", o.locked()]
        if t is queue.Queue:
            return ["queue", [self.of(x) for x in o.queue]]
        i = zoo_id(o)
        if i in self.seen:
            return ["ref", self.seen[i]]
        self.seen[i] = n = len(self.seen)
        self.keep.append(o)
        out = ["obj", n, _tname(t)]
        try:
            if isinstance(o, (list, collections.deque)):
                it = list.__iter__(o) if isinstance(o, list) else iter(o)
                out.append(["items", [self.of(x) for x in it]])
            elif isinstance(o, tuple):
                out.append(["items", [self.of(x) for x in tuple.__iter__(o)]])
            elif isinstance(o, (set, frozenset)):
                out.append(["items", sorted((self.of(x) for x in o), key=repr)])
            if isinstance(o, dict):
                items = [(self.key(k), v) for k, v in dict.items(o)]
                if not isinstance(o, collections.OrderedDict):
                    items.sort(key=lambda kv: repr(kv[0]))
                out.append(["map", [[k, self.of(v)] for k, v in items]])
            if isinstance(o, collections.defaultdict):
                out.append(["factory", self.of(o.default_factory)])
            if isinstance(o, (str, int, float)):
                out.append(["val", repr(o)])
            if isinstance(o, functools.partial):
                out.append(["partial", self.of(o.func), self.of(o.args), self.of(o.keywords)])
            if isinstance(o, BaseException):
                out.append(["args", self.of(o.args)])
            if hasattr(o, "__next__"):
                out.append(["iter", [self.of(x) for x in o]])
            attrs = []
            d = getattr(o, "__dict__", None)
            if isinstance(d, dict):
                attrs.extend(d.items())
            for c in t.__mro__:
                for s in _slots(c):
                    if hasattr(o, s) and s not in ("__dict__", "__weakref__"):
                        attrs.append((s, getattr(o, s)))
            if attrs:
                attrs = {str(k): v for k, v in attrs}
                if self.loose:
                    attrs = {k: v for k, v in attrs.items() if k not in EXTRA}
                out.append(["attrs", [[k, self.of(attrs[k])] for k in sorted(attrs)]])
        except RecursionError:
            raise
        except Exception as e:  # noqa: BLE001 - canonical form must be total
            out.append(["uncanonical", type(e).__name__])
        return out

    def key(self, k):
        if isinstance(k, (str, int, float, bool, type(None))):
            return self.of(k)
        if self.depth > 3:
            return ["key", _tname(type(k))]
        return _Canon(self.loose, self.depth + 1).of(k)


def _slots(c):
    s = c.__dict__.get("__slots__", ())
    if isinstance(s, str):
        return (s,)
    return tuple(s) if isinstance(s, (tuple, list)) else ()


import builtins as _b

zoo_id = getattr(_b, "_vsim_real_id", id)
