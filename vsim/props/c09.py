"""C09: reused memory addresses never alias distinct objects."""

import collections
import enum
import json

import jsonpickle

from .. import alloc, graph, ops, proc, zoo
from .. import shrink as sh
from ..faults import EXC, ORDINARY
from ..sched import Sim
from . import c01

TEMP = ["StateTemp", "HTmp", "RedTmp", "Red2", "Red3", "RedList", "RedDict", "State", "StateTuple", "NewArgs",
        "NewArgsEx", "Handled", "HCtx", "HKids", "HInst", "HBase", "HChild", "Prop", "DictItems"]  # fmt: skip
FLAVOURS = 11


def gen(rng):
    keyed = rng.random() < 0.25
    hk, kinds = (), graph.ALL
    if rng.random() < 0.35:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, rng.randint(1, 3))
        kinds = graph.ALL + graph.HNODES * 4
    if rng.random() < 0.6:
        kinds = TEMP + ["list", "dict", "tuple"]
    ngraph = rng.choice([1, 1, 2, 3])
    graphs = []
    plain = rng.random() < 0.12
    for _ in range(ngraph):
        size = rng.choice([1, 2, 3, 4, 6, 9])
        if plain:
            g = graph.gen_graph(rng, size=size, cyc=False, kinds=sorted(graph._PROPS), leaves=graph.PRIM_KINDS)
        else:
            g = graph.gen_graph(rng, size=size, keyed=keyed, heavy_kinds=hk, kinds=kinds)
        graphs.append(g)
    docs = [
        {"g": rng.randrange(ngraph), "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed), "ghost": rng.random() < 0.2}
        for _ in range(rng.randint(1, 2))
    ]
    hist = []
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        r = rng.random()
        if r < 0.2:
            op = {"op": "dyn", "f": rng.randrange(FLAVOURS), "n": rng.randrange(100), "o": {}}
            op["back"] = rng.random() < 0.5
            for k in ("unpicklable", "make_refs"):
                if rng.random() < 0.2:
                    op["o"][k] = False
            if rng.random() < 0.2:
                op["o"]["include_properties"] = True
        elif r < 0.3:
            op = {"op": "iter", "n": rng.randint(1, 6), "m": rng.randrange(4), "o": {}}
            for k in ("unpicklable", "make_refs"):
                if rng.random() < 0.4:
                    op["o"][k] = False
        else:
            op = c01.gen_op(rng, graphs, len(docs), keyed, rng.choice(["s", i]))
            if op["op"] == "encode" and not graphs[op["g"]]["cyc"] and rng.random() < 0.3:
                op["o"][rng.choice(["unpicklable", "make_refs"])] = False
        if rng.random() < 0.3:
            op["gc"] = [rng.random() for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.2:
            op["raise"] = [[rng.random(), rng.choice(ORDINARY)] for _ in range(rng.randint(1, 2))]
            if op["op"] == "encode" and rng.random() < 0.8:
                op["o"]["fail_safe"] = rng.choice([None, "failed", 7])
        op["gc_after"] = rng.random() < 0.4
        hist.append(op)
    if any(op.get("ctx") == "s" for op in hist):
        # one shared context per side needs one set of options
        first = {}
        for op in hist:
            if op.get("ctx") == "s":
                side = op["op"] in ("encode", "flatten")
                op["o"] = first.setdefault(side, op["o"])
    mode = rng.choice(["lifo", "lifo", "fifo", "rand", "rand"])
    pol = {"mode": mode}
    if mode == "rand":
        pol.update(p=rng.choice([0.9, 0.5, 0.2]), seed=rng.randrange(1 << 30))
    return {"graphs": graphs, "docs": docs, "ops": hist, "policy": pol}


class Fresh:
    """Graphs that exist only while a call works on them."""

    def __init__(self, scn):
        self.specs = scn["graphs"]

    def __getitem__(self, i):
        return graph.build(self.specs[i], base=100 * (i + 1))


def dyn_class(f):
    ns = {"__module__": "vsim.zoo", "__qualname__": "Dyn"}
    bases = ()
    if f == 1:
        ns["__slots__"] = ("a", "b")
    elif f == 2:
        ns["__getstate__"] = lambda self: {"s": [self.a, [self.b]]}
        ns["__setstate__"] = lambda self, s: self.__dict__.update(a=s["s"][0], b=s["s"][1][0])
    elif f == 3:
        bases = (dict,)
    elif f == 4:
        bases = (list,)
    elif f == 5:
        ns["_jsonpickle_exclude"] = ("b",)
    elif f == 6:
        t = collections.namedtuple("Dyn", "a b")
        t.__module__ = "vsim.zoo"
        return t
    elif f == 7:
        ns["__reduce__"] = lambda self: (zoo.fn_a, ([self.a, {"b": self.b}],))
    elif f == 8:
        ns["c"] = property(lambda self: [self.a, self.b])
    elif f == 9:
        return enum.Enum("Dyn", "a b", module="vsim.zoo")
    elif f == 10:
        ns["__getnewargs__"] = lambda self: (self.a,)
        ns["__new__"] = lambda cls, *a: object.__new__(cls)
    return type("Dyn", bases, ns)


def dyn_obj(f, n):
    cls = dyn_class(f)
    if f == 6:
        return cls(n, [n])
    if f == 9:
        return cls.a if n % 2 else cls.b
    o = cls()
    o.a, o.b = n, [n, "x"]
    if f == 3:
        o["k"] = n
    if f == 4:
        o.append([n])
    return o


def temps(n, m):
    for i in range(n):
        zoo.fire("next", i)
        yield [[i, m], {"i": i}, bytes([i, m]), zoo.Plain(i), (i, [m])][m if m < 4 else i % 5]


def call(op, env):
    if op["op"] == "dyn":
        obj = dyn_obj(op["f"], op["n"])
        text = jsonpickle.encode([obj, obj], **op["o"])
        if op["back"]:
            back = jsonpickle.decode(text, classes={"vsim.zoo.Dyn": type(obj)})
            return [text, graph.canon(back)]
        return [text, None]
    if op["op"] == "iter":
        return jsonpickle.encode({"it": temps(op["n"], op["m"]), "last": [op["n"]]}, **op["o"])
    return ops.call(op, env)


def perform(op, env, a):
    try:
        value = call(op, env)
    except BaseException as e:  # noqa: BLE001 - the outcome under test
        return ops.exc_outcome(e)
    if op["op"] in ("dyn", "iter"):
        return ["ok", value]
    env.sim.quiet(a, True)
    try:
        return ["ok", ops.payload(op, value)]
    finally:
        env.sim.quiet(a, False)


def history(scn, docs, policy, counts):
    """All calls in one process; counts (hook firings) enables the faults."""
    fired = []
    state = {"n": 0, "gc": (), "exc": {}}
    mem = alloc.use(policy)

    def on_hook(sim, a, site, nid, n, obj):
        i = state["n"]
        state["n"] += 1
        if i in state["gc"]:
            fired.append("collection in " + site)
            mem.collect()
        exc = state["exc"].get(i)
        if exc:
            fired.append(f"{exc} in {site}")
            raise EXC[exc]("injected", site)

    sim = Sim(grain="hook", on_hook=on_hook)
    env = ops.Env({}, docs, sim)
    env.graphs = Fresh(scn)
    outs, hooks = [], []

    def body(a):
        for i, op in enumerate(scn["ops"]):
            state.update(n=0, gc=(), exc={})
            if counts and counts[i]:
                top = counts[i]
                state["gc"] = {int(f * top) for f in op.get("gc", ())}
                state["exc"] = {int(f * top): e for f, e in op.get("raise", ())}
            out = perform(op, env, a)
            hooks.append(state["n"])
            outs.append(out)
            if op["gc_after"]:
                mem.collect()
                fired.append("collection after a call")

    sim.run([body])
    alloc.use({"mode": "real"})
    return {"outs": outs, "hooks": hooks, "fired": fired, "steps": sim.step + mem.n, "addresses": mem.n,
            "died": mem.died, "reused": mem.reused}  # fmt: skip


def make_docs(scn):
    alloc.use({"mode": "never"})
    return c01.make_docs(scn)


def run(scn):
    docs = proc.child(make_docs, scn)
    never = {"mode": "never"}
    counts = None
    if any("gc" in op or "raise" in op for op in scn["ops"]):
        counts = proc.child(history, scn, docs, never, None)["hooks"]
    want = proc.child(history, scn, docs, never, counts)
    got = proc.child(history, scn, docs, scn["policy"], counts)
    viol = None
    for i, (x, y) in enumerate(zip(want["outs"], got["outs"])):
        if "RecursionError" in (x[1], y[1]):
            continue
        if x != y:
            viol = {
                "kind": "aliasing",
                "detail": {"call": i, "op": scn["ops"][i], "no reuse": x, "reuse": y,
                           "reused": got["reused"][-10:]},
            }  # fmt: skip
            break
    stats = {"steps": got["steps"], "calls": len(got["outs"]), "addresses_handed_out": got["addresses"],
             "objects_that_died": got["died"], "fault:address reused": len(got["reused"])}  # fmt: skip
    for f in got["fired"]:
        stats["fault:" + f] = stats.get("fault:" + f, 0) + 1
    return {
        "viol": viol, "stats": stats,
        "sig": json.dumps([scn["graphs"], scn["ops"], got["reused"], got["fired"]]),
        "nontrivial": bool(got["reused"]),
        "sample": {"scenario": scn, "reused": got["reused"][:20], "fired": got["fired"]},
    }  # fmt: skip


def explicit(scn):
    docs = proc.child(make_docs, scn)
    counts = proc.child(history, scn, docs, {"mode": "never"}, None)["hooks"]
    got = proc.child(history, scn, docs, scn["policy"], counts)
    return dict(scn, policy={"mode": "explicit", "reuse": got["reused"]})


def shrink(scn):
    for c in sh.listkey(scn, "ops"):
        if c["ops"]:
            yield c
    if scn["policy"]["mode"] == "explicit":
        for c in sh.listkey(scn["policy"], "reuse"):
            yield dict(scn, policy=c)
    yield from sh.graphs(scn)
    yield from sh.op_opts(scn, "docs")
    yield from sh.op_opts(scn, "ops")
    for i, op in enumerate(scn["ops"]):
        for k in ("gc", "raise"):
            if k in op:
                new = dict(op)
                del new[k]
                yield dict(scn, ops=scn["ops"][:i] + [new] + scn["ops"][i + 1 :])
        if op["gc_after"]:
            yield dict(scn, ops=scn["ops"][:i] + [dict(op, gc_after=False)] + scn["ops"][i + 1 :])
