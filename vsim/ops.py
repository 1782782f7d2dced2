"""Operations that actors perform, and generators for them."""

import contextlib
import json as stdjson
import re
import sys

import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from . import graph, zoo
from .sched import SimAbort, SimDeadlock

_ADDR = re.compile(r"0x[0-9a-fA-F]{4,}")


def norm(text):
    return _ADDR.sub("0x#", text) if isinstance(text, str) else text


def exc_outcome(e):
    return ["exc", type(e).__name__, norm(str(e))[:300]]


# -- options ---------------------------------------------------------------


def local_classes(names):
    """Classes only reachable through classes=."""
    out = {}
    for n in names:
        if n.endswith("()"):
            out[n[:-2]] = zoo.make_local
            continue
        out[n] = type(n.rsplit(".", 1)[-1], (zoo.Plain,), {"__module__": "nowhere"})
    return out


def enc_kwargs(o, env=None):
    kw = dict(o or {})
    fs = kw.pop("fail_safe", None)
    if fs is not None:
        kw["fail_safe"] = _fail_safe(fs, env)
    if "separators" in kw:
        kw["separators"] = tuple(kw["separators"])
    return kw


def _fail_safe(fs, env):
    def fail_safe(exc):
        zoo.fire("fail_safe", None)
        if env is not None:
            env.failures.append(exc)
        return fs

    return fail_safe


def dec_kwargs(o, env=None):
    kw = dict(o or {})
    om = kw.get("on_missing")
    if om == "callback":

        def on_missing(name):
            zoo.fire("on_missing", name)
            if env is not None:
                env.missing.append(name)

        kw["on_missing"] = on_missing
    cl = kw.get("classes")
    if cl is not None:
        kw["classes"] = local_classes(cl)
    return kw


def gen_enc_opts(rng, faithful=False, keyed=False, cyc=False, props=False):
    """Options of an encode call.

    Cyclic lists without references recurse until the stack ends (a function
    of the input and of the stack depth), so cyclic graphs keep unpicklable.
    """
    o = {}
    if keyed:
        o["keys"] = True
    if rng.random() < 0.35:
        if rng.random() < 0.5:
            o["indent"] = rng.choice([1, 2, 4])
        if rng.random() < 0.3:
            o["separators"] = rng.choice([[",", ":"], [", ", " : "]])
    if rng.random() < 0.25:
        o["use_base85"] = True
    if rng.random() < 0.2:
        o["warn"] = True
    if rng.random() < 0.3:
        o["handler_context"] = rng.choice(["c1", "c2", {"k": 1}, ["c", 3], 0])
    if faithful:
        return o
    if rng.random() < 0.25 and not cyc:
        o["unpicklable"] = False
    if rng.random() < 0.25:
        o["make_refs"] = False
    if rng.random() < 0.15:
        o["max_depth"] = rng.randint(0, 4)
    if rng.random() < 0.15:
        o["max_iter"] = rng.randint(0, 3)
    if rng.random() < 0.15:
        o["numeric_keys"] = True
    if rng.random() < 0.1:
        o["use_decimal"] = True
    if props and rng.random() < 0.7:
        o["include_properties"] = True
    if rng.random() < 0.1:
        o["handle_readonly"] = True
    if rng.random() < 0.15:
        o["fail_safe"] = rng.choice(["failed", None, 7])
    return o


def gen_dec_opts(rng, keyed=False):
    o = {}
    if keyed:
        o["keys"] = True
    if rng.random() < 0.2:
        o["safe"] = rng.choice([True, False])
    if rng.random() < 0.1:
        o["v1_decode"] = True
    if rng.random() < 0.25:
        o["on_missing"] = rng.choice(["ignore", "warn", "error", "callback"])
    if rng.random() < 0.2:
        o["classes"] = [rng.choice(["nowhere.Local", "nowhere.Local", "nowhere.Local()"])]
    if rng.random() < 0.1:
        o["handle_readonly"] = True
    if rng.random() < 0.3:
        o["handler_context"] = rng.choice(["d1", "d2", {"k": 2}, 0])
    return o


CTX_ENC = {
    "unpicklable", "make_refs", "max_depth", "keys", "warn", "max_iter",
    "numeric_keys", "use_decimal", "use_base85", "fail_safe",
    "include_properties", "handle_readonly", "handler_context",
}  # fmt: skip
CTX_DEC = {"keys", "safe", "v1_decode", "on_missing", "handle_readonly", "handler_context"}  # fmt: skip


GIVE_UP = (SimAbort, SimDeadlock)


@contextlib.contextmanager
def traced(sim, a):
    """Yield points and interrupts are active in the body."""
    sim.trace(a, True)
    try:
        yield
    finally:
        sim.trace(a, False)


# -- execution -------------------------------------------------------------


class Env:
    """What the operations of one execution work on."""

    def __init__(self, scn, docs=None, sim=None):
        self.scn = scn
        self.graphs = [
            graph.build(g, base=100 * (i + 1)) for i, g in enumerate(scn.get("graphs", []))
        ]
        self.docs = docs if docs is not None else []
        self.sim = sim
        self.ctx = {}
        self.failures = []
        self.missing = []
        self.keep = []

    def pickler(self, name, o):
        key = ("p", name)
        if key not in self.ctx:
            kw = enc_kwargs({k: v for k, v in (o or {}).items() if k in CTX_ENC}, self)
            self.ctx[key] = Pickler(**kw)
        return self.ctx[key]

    def unpickler(self, name, o):
        key = ("u", name)
        if key not in self.ctx:
            kw = dec_kwargs({k: v for k, v in (o or {}).items() if k in CTX_DEC}, self)
            self.ctx[key] = Unpickler(**kw)
        return self.ctx[key]


def call(op, env):
    """Run the library call of an operation; returns the raw result."""
    kind = op["op"]
    o = op.get("o")
    if kind == "encode":
        obj = env.graphs[op["g"]]
        kw = enc_kwargs(o, env)
        if op.get("ctx") is not None:
            kw = {k: v for k, v in kw.items() if k in ("indent", "separators")}
            kw["context"] = env.pickler(op["ctx"], o)
        return jsonpickle.encode(obj, **kw)
    if kind == "decode":
        kw = dec_kwargs(o, env)
        if op.get("ctx") is not None:
            kw = {k: v for k, v in kw.items() if k == "classes"}
            kw["context"] = env.unpickler(op["ctx"], o)
        return jsonpickle.decode(env.docs[op["d"]], **kw)
    if kind == "flatten":
        return env.pickler(op["ctx"], o).flatten(env.graphs[op["g"]])
    if kind == "restore":
        kw = dec_kwargs(o, env)
        cl = kw.get("classes")
        return env.unpickler(op["ctx"], o).restore(
            stdjson.loads(env.docs[op["d"]]), classes=cl
        )
    if kind == "text":  # decode a literal document
        kw = dec_kwargs(o, env)
        if op.get("ctx") is not None:
            kw = {"context": env.unpickler(op["ctx"], o)}
        return jsonpickle.decode(op["s"], **kw)
    raise ValueError(kind)


def payload(op, value):
    if op["op"] == "encode":
        return norm(value)
    if op["op"] == "flatten":
        return norm(repr(graph.canon(value)))
    return graph.canon(value)


def perform(op, env, a=None, keep=False):
    """One operation as seen by the caller: its outcome.

    Tracing is on only for the library call itself.
    """
    sim = env.sim
    if sim is not None:
        sim.trace(a, True)
    try:
        try:
            value = call(op, env)
        finally:
            if sim is not None:
                sim.trace(a, False)
    except (SimAbort, SimDeadlock):
        raise
    except BaseException as e:  # noqa: BLE001 - the outcome under test
        if sim is not None and sim.aborted:
            raise SimAbort(sim.aborted) from None
        out = exc_outcome(e)
        if keep:
            env.keep.append(e)
        return out
    if sim is not None:
        sim.quiet(a, True)
    try:
        out = ["ok", payload(op, value)]
    finally:
        if sim is not None:
            sim.quiet(a, False)
    if keep:
        env.keep.append(value)
    return out
