"""C08: a document does not depend on the process that wrote it.

A writer process goes through a history of calls, failures, interrupts and
configuration changes (undone again), then writes documents.  Fresh processes,
one of them with another hash seed, write the same and read what was written.
"""

import json
import threading

import jsonpickle
from jsonpickle import backend as jbackend
from jsonpickle import handlers

from .. import around, graph, ops, peer, proc, zoo
from .. import shrink as sh
from ..faults import EXC
from ..sched import Sim
from . import c01, c03

SEEDS = [1, 1077, 4242, 9001]
FLAGS = ("heavy",)


def gen(rng):
    keyed = rng.random() < 0.3
    hk = ()
    kinds = graph.ALL
    if rng.random() < 0.3:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, rng.randint(1, 3))
        kinds = graph.ALL + graph.HNODES * 3
    graphs = []
    for i in range(rng.choice([1, 2, 3])):
        g = graph.gen_graph(rng, size=rng.choice([1, 2, 3, 4, 6, 9]), keyed=keyed, heavy_kinds=hk, kinds=kinds)
        graphs.append(g)
    docs = [{"g": rng.randrange(len(graphs)), "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed), "ghost": rng.random() < 0.15} for _ in range(2)]
    hist = []
    for i in range(rng.choice([0, 1, 2, 4, 7])):
        r = rng.random()
        if r < 0.3:
            hist.append({"op": "config", "what": rng.choice(sorted(CONFIGS)), "inner": c01.gen_op(rng, graphs, len(docs), keyed, f"c{i}") if rng.random() < 0.5 else None})
            continue
        if r < 0.4:
            hist.append({"op": "text", "s": rng.choice(c03.TORN)})
            continue
        op = c01.gen_op(rng, graphs, len(docs), keyed, f"h{i}")
        if rng.random() < 0.3:
            op["fault"] = [rng.randint(0, 12), rng.choice(c03.HOOK_EXC)]
        elif rng.random() < 0.25:
            op["int"] = [int(2 ** (rng.random() * 9)), rng.choice(["kbd", "mem", "stk", "exit"])]
        elif rng.random() < 0.15:
            op["thread"] = True
        hist.append(op)
    writes = [{"g": rng.randrange(len(graphs)), "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed)} for _ in range(rng.choice([1, 1, 2]))]
    if rng.random() < 0.2:
        for w in writes:
            w["lossy"] = True
            cyc = graphs[w["g"]]["cyc"]
            w["o"] = ops.gen_enc_opts(rng, keyed=keyed, cyc=cyc, props=graph.props_ok(graphs[w["g"]]) and not cyc)
            w["o"].pop("fail_safe", None)
    return {"graphs": graphs, "docs": docs, "ops": hist, "writes": writes, "peer": rng.choice(SEEDS), "keyed": keyed}


# -- configuration changes that are taken back ------------------------------


class _Other(handlers.BaseHandler):
    def flatten(self, obj, data):
        data["other"] = 1
        return data

    def restore(self, data):
        return zoo.Sub(0)


def _handler(cls):
    def change():
        handlers.register(cls, _Other)

        def undo():
            handlers.unregister(cls)

        return undo

    return change


def _ext(name):
    def change():
        mod = __import__("jsonpickle.ext." + name, fromlist=["x"])
        mod.unregister_handlers()
        return mod.register_handlers

    return change


def _prefer():
    jsonpickle.set_preferred_backend("json")
    return lambda: jsonpickle.set_preferred_backend("simplejson")


def _opts():
    jsonpickle.set_encoder_options("simplejson", indent=3)
    jsonpickle.set_encoder_options("ujson", indent=3)
    return lambda: jsonpickle.set_encoder_options("simplejson", sort_keys=False)


def _through():
    jbackend.json.enable_fallthrough(False)
    return lambda: jbackend.json.enable_fallthrough(True)


def _private():
    bk = jbackend.JSONBackend()
    bk.set_encoder_options("simplejson", sort_keys=False, indent=1)
    bk.set_preferred_backend("ujson")
    jsonpickle.encode([1, {"a": 2}], backend=bk, indent=2)
    return lambda: None


CONFIGS = {
    "handler for Plain": _handler(zoo.Plain),
    "handler for list subclass": _handler(zoo.ListSub),
    "handler for State": _handler(zoo.State),
    "numpy unregistered": _ext("numpy"),
    "gmpy unregistered": _ext("gmpy"),
    "preferred backend": _prefer,
    "encoder options": _opts,
    "fallthrough off": _through,
    "private backend": _private,
}


# -- execution ----------------------------------------------------------------


def write(scn, env, w):
    try:
        text = jsonpickle.encode(graph.build(scn["graphs"][w["g"]]), **ops.enc_kwargs(w["o"], env))
        # the repr of an object cut off by max_depth or a cycle has its address
        return ["ok", ops.norm(text) if w.get("lossy") else text]
    except RecursionError:
        return ["exc", "RecursionError", ""]
    except Exception as e:  # noqa: BLE001
        return ops.exc_outcome(e)


def read(scn, texts, salt=0):
    """Decode what was written; canonical forms, strict and loose."""
    if salt:
        around.elsewhere(salt)
    out = []
    for w, t in zip(scn["writes"], texts):
        if t[0] != "ok" or w.get("lossy"):
            out.append(t)
            continue
        kw = {"keys": True} if scn["keyed"] else {}
        try:
            v = jsonpickle.decode(t[1], **kw)
        except Exception as e:  # noqa: BLE001
            out.append(ops.exc_outcome(e))
            continue
        out.append(["ok", graph.canon(v), graph.canon(v, loose=True)])
    return out


def fresh(scn, salt=0):
    if salt:
        around.elsewhere(salt)
    env = ops.Env(scn)
    originals = [graph.canon(graph.build(scn["graphs"][w["g"]]), loose=True) for w in scn["writes"]]
    return {"texts": [write(scn, env, w) for w in scn["writes"]], "originals": originals}


def written(scn, docs):
    """The history, then the writes, then reading them back here."""
    state = {"at": None, "n": 0, "exc": None}
    fired = []

    def on_hook(sim, a, site, nid, n, obj):
        i = state["n"]
        state["n"] += 1
        if i == state["at"]:
            fired.append(f"{state['exc']} in {site}")
            raise EXC[state["exc"]]("injected", site)

    sim = Sim(grain="line", on_hook=on_hook, arm=any("int" in op for op in scn["ops"]))
    env = ops.Env(scn, docs, sim)
    res = {}

    def body(a):
        for op in scn["ops"]:
            state.update(at=None, n=0)
            sim.interrupts.clear()
            if op["op"] == "config":
                undo = CONFIGS[op["what"]]()
                if op["inner"]:
                    ops.perform(op["inner"], env, a)
                undo()
                continue
            if op.get("fault"):
                state["at"], state["exc"] = op["fault"]
            if op.get("int"):
                sim.interrupts[a.idx, a.steps + op["int"][0]] = op["int"][1]
            if op.get("thread"):
                t = threading.Thread(target=ops.perform, args=(op, env, a))
                t.start()
                t.join()
            else:
                ops.perform(op, env, a)
        state.update(at=None, n=0)
        sim.interrupts.clear()
        sim.quiet(a, True)
        res["texts"] = [write(scn, env, w) for w in scn["writes"]]
        res["read"] = read(scn, res["texts"])

    sim.run([body])
    res.update(fired=fired + [f[0] for f in sim.fired], steps=sim.step, aborted=sim.aborted)
    return res


def hash_ordered(g):
    """Does the text show hashes or the order of a hashed collection?"""
    for n in g["nodes"]:
        for e in n["c"]:
            if e[0] == "v" and (e[1][0] in ("set", "frozenset", "path") or "_" in e[1][0]):
                return True
        for k in n.get("ks", ()):
            if k[0] in ("frozenset",):
                return True
    return False


def run(scn):
    docs = proc.child(c01.make_docs, scn)
    ref = proc.child(fresh, scn)
    got = proc.child(written, scn, docs)
    if got["aborted"]:
        viol = {"kind": got["aborted"], "detail": "the calls do not terminate"}
        return {"viol": viol, "stats": {"steps": got["steps"]}, "sig": json.dumps(scn), "nontrivial": True, "sample": scn}
    viol = None
    other = peer.call(scn["peer"], FLAGS, "c08", "fresh", scn, 1 + scn["peer"] % 7)
    there = peer.call(scn["peer"], FLAGS, "c08", "read", scn, got["texts"], 1 + scn["peer"] % 5)
    full = 0
    for i, w in enumerate(scn["writes"]):
        g = scn["graphs"][w["g"]]
        t, f = got["texts"][i], ref["texts"][i]
        if "RecursionError" in (t[1], f[1]):
            continue
        if t != f:
            viol = {"kind": "depends on history", "detail": {"write": w, "fresh": f, "after history": t}}
        elif not hash_ordered(g) and other["texts"][i] != f:
            viol = {"kind": "depends on the process", "detail": {"write": w, "here": f, "other process": other["texts"][i]}}
        elif t[0] == "ok" and there[i] != got["read"][i]:
            viol = {"kind": "read differently", "detail": {"write": w, "text": t[1], "writer reads": got["read"][i], "other process reads": there[i]}}
        elif t[0] == "ok" and not w.get("lossy") and comparable(g):
            full += 1
            if there[i][0] != "ok" or there[i][2] != ref["originals"][i]:
                viol = {"kind": "not equal", "detail": {"write": w, "text": t[1], "original": ref["originals"][i], "read": there[i]}}
        if viol:
            break
    stats = {"steps": got["steps"], "calls": len(scn["writes"]) * 3 + len(scn["ops"]), "processes": 4, "documents_compared_with_the_original": full}
    stats["fault:process restart"] = 3
    for f in got["fired"]:
        stats["fault:" + f] = stats.get("fault:" + f, 0) + 1
    return {
        "viol": viol, "stats": stats,
        "sig": json.dumps([scn["graphs"], scn["ops"], scn["writes"], got["fired"], scn["peer"]]),
        "nontrivial": bool(scn["ops"]) and any(t[0] == "ok" for t in got["texts"]),
        "sample": {"scenario": scn, "texts": got["texts"]},
    }  # fmt: skip


def comparable(g):
    return not any(n["k"] in graph.HNODES for n in g["nodes"])


def shrink(scn):
    yield from sh.listkey(scn, "ops")
    if len(scn["writes"]) > 1:
        yield from sh.listkey(scn, "writes")
    yield from sh.graphs(scn)
    yield from sh.op_opts(scn, "writes")
