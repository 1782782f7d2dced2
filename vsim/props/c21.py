"""C21: running out of stack or memory never gives a wrong result."""

import json
import sys

import jsonpickle

from .. import graph, ops, proc
from .. import shrink as sh
from ..sched import LONG, Sim, limit
from . import c01


def gen(rng):
    keyed = rng.random() < 0.25
    hk, kinds = (), graph.ALL
    fall = rng.random() < 0.3
    if not fall and rng.random() < 0.3:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, 1)
        kinds = graph.ALL + graph.HNODES * 6
    g = graph.gen_graph(rng, size=rng.choice([1, 2, 3, 4, 6, 9, 14]), keyed=keyed, heavy_kinds=hk, kinds=kinds)
    graphs = [g]
    docs = [{"g": 0, "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed), "ghost": rng.random() < 0.2}]
    op = c01.gen_op(rng, graphs, 1, keyed, "c")
    op["o"].pop("fail_safe", None)
    faults = []
    for _ in range(rng.choice([3, 6, 9])):
        r = rng.random()
        if r < 0.5:
            faults.append(["frames", rng.choice([rng.randint(4, 40), rng.randint(10, 150)])])
        else:
            faults.append([rng.choice(["mem", "stk"]), rng.random()])
    return {"graphs": graphs, "docs": docs, "op": op, "faults": faults, "fall": fall,
            "grain": rng.choice(["line", "line", "op", "call"])}  # fmt: skip


def once(scn, docs, fault=None, at=None, max_steps=3000000):
    frames = fault is not None and fault[0] == "frames"
    sim = Sim(grain="hook" if frames else scn["grain"], max_steps=max_steps,
              interrupts=[[0, at, fault[0]]] if at else ())  # fmt: skip
    jsonpickle.enable_fallthrough(scn["fall"])
    env = ops.Env(scn, docs, sim)
    outs = {}
    real = ops.call

    def short(op, env):
        """The call with only so many frames of stack left."""
        f, n = sys._getframe(), 0
        while f is not None:
            f, n = f.f_back, n + 1
        old = sys.getrecursionlimit()
        sys.setrecursionlimit(n + fault[1])
        try:
            return real(op, env)
        finally:
            sys.setrecursionlimit(old)

    if frames:
        ops.call = short

    def body(a):
        outs["out"] = ops.perform(scn["op"], env, a, keep=True)
        outs["steps"] = a.steps

    sim.run([body])
    return {"out": outs.get("out"), "n": outs.get("steps", 0), "fired": frames or bool(sim.fired),
            "steps": sim.step, "inside": sim.inside, "aborted": sim.aborted}  # fmt: skip


def same(scn, a, b):
    """With fallthrough another backend may write the same value differently."""
    if a == b:
        return True
    if not scn["fall"] or scn["op"]["op"] != "encode" or "exc" in (a[0], b[0]):
        return False
    return json.loads(a[1]) == json.loads(b[1])


def run(scn):
    docs = proc.child(c01.make_docs, scn)
    ref = proc.child(once, scn, docs)
    if ref["aborted"] or ref["steps"] > LONG or ref["out"][1] == "RecursionError":
        return {"viol": None, "stats": {"too_long": 1}, "sig": "", "nontrivial": False, "sample": None}
    stats = {"calls": 0, "steps": ref["steps"], "calls_that_still_succeeded": 0}
    sig, viol = [], None
    for fault in scn["faults"]:
        at = None
        if fault[0] != "frames":
            if not ref["n"]:
                continue
            at = 1 + int(fault[1] * ref["n"])
        got = proc.child(once, scn, docs, fault, at, limit(ref["steps"]))
        if not got["fired"] or got["inside"] in ("__hash__", "__eq__"):
            continue
        stats["calls"] += 1
        stats["steps"] += got["steps"]
        k = "fault:" + {"frames": "stack limit", "mem": "MemoryError", "stk": "RecursionError"}[fault[0]]
        stats[k] = stats.get(k, 0) + 1
        sig.append([fault, at])
        where = {"fault": fault, "step": at, "of": ref["n"], "in": got["inside"]}
        if got["aborted"]:
            viol = {"kind": got["aborted"], "detail": dict(where, problem="the call does not terminate")}
        elif same(scn, got["out"], ref["out"]):
            stats["calls_that_still_succeeded"] += 1
        elif got["out"][0] != "exc":
            viol = {"kind": "wrong result", "detail": dict(where, undisturbed=ref["out"], got=got["out"])}
        if viol:
            break
    return {
        "viol": viol, "stats": stats, "sig": json.dumps([scn["graphs"], scn["op"], sig]),
        "nontrivial": bool(sig), "sample": {"scenario": scn, "judged": sig},
    }  # fmt: skip


def shrink(scn):
    yield from sh.listkey(scn, "faults")
    yield from sh.graphs(scn)
    for k in list(scn["op"]["o"]):
        o = dict(scn["op"]["o"])
        del o[k]
        yield dict(scn, op=dict(scn["op"], o=o))
    yield from sh.op_opts(scn, "docs")
