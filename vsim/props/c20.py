"""C20: an interrupt ends the call and reaches the caller."""

import json

import jsonpickle

from .. import graph, ops, proc
from .. import shrink as sh
from ..sched import LONG, Sim, limit
from . import c01

KINDS = ["kbd", "exit", "cancel"]


def gen(rng):
    keyed = rng.random() < 0.2
    hk, kinds = (), graph.ALL + graph.ONCE
    if rng.random() < 0.3:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, 1)
        kinds = graph.ALL + graph.HNODES * 6
    g = graph.gen_graph(rng, size=rng.choice([1, 2, 3, 4, 6, 9]), keyed=keyed, heavy_kinds=hk, kinds=kinds)
    g = graph.ensure_hooked(rng, g)
    graphs = [g]
    docs = [{"g": 0, "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed), "ghost": rng.random() < 0.3}]
    if not keyed and rng.random() < 0.2:
        graph.repr_keys(rng, graphs)
    op = c01.gen_op(rng, graphs, 1, keyed, "c")
    if op["op"] in ("encode", "flatten") and rng.random() < 0.3:
        op["o"]["fail_safe"] = "x"
    scn = {"graphs": graphs, "docs": docs, "op": op, "grain": rng.choice(["line", "line", "op", "call"])}
    scn["backend"] = rng.random() < 0.3
    if rng.random() < 0.3:  # another thread is at work, on objects of its own
        graphs.append(graph.gen_graph(rng, size=rng.choice([1, 2, 4]), keyed=keyed))
        docs.append({"g": 1, "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed)})
        if rng.random() < 0.5:
            other = {"op": "decode", "d": 1, "o": ops.gen_dec_opts(rng, keyed=keyed)}
            other["o"].pop("v1_decode", None)
        else:
            cyc = graphs[1]["cyc"]
            other = {"op": "encode", "g": 1, "o": ops.gen_enc_opts(rng, keyed=keyed, cyc=cyc)}
        scn["other"] = other
        p = rng.choice([0.5, 0.2, 0.05])
        scn["schedule"] = {"mode": "rand", "p": p, "p_hook": p, "seed": rng.randrange(1 << 30)}
    scn["faults"] = [
        [rng.random(), rng.choice(KINDS), rng.random() < 0.4] for _ in range(rng.choice([3, 6, 9]))
    ]  # fmt: skip
    return scn


def once(scn, docs, at=None, kind=None, max_steps=3000000):
    """The call, interrupted before its step ``at``; next to the other thread's."""
    hooks, late = [], []

    def on_hook(sim, a, site, nid, n, obj):
        if a.idx == 0:
            (late if sim.fired else hooks).append([a.steps, site])

    if scn["backend"]:
        jsonpickle.load_backend("vsim.hjson", "dumps", "loads", ValueError)
        jsonpickle.set_preferred_backend("vsim.hjson")
    threads = at is not None and "other" in scn
    sim = Sim(grain=scn["grain"], on_hook=on_hook, max_steps=max_steps,
              schedule=scn["schedule"] if threads else None,
              interrupts=[[0, at, kind]] if at else ())  # fmt: skip
    env = ops.Env(scn, docs, sim)
    outs = {}

    def main(a):
        outs["main"] = ops.perform(scn["op"], env, a, keep=True)
        outs["steps"] = a.steps

    def other(a):
        outs["other"] = ops.perform(scn["other"], env, a)

    def both(a):
        main(a)
        if "other" in scn:
            other(a)

    sim.run([main, other] if threads else [both])
    same = bool(sim.raised) and outs["main"][0] == "exc" and any(x is sim.raised[0] for x in env.keep)
    return {"outs": outs, "hooks": hooks, "late": late, "fired": bool(sim.fired), "same": same,
            "inside": sim.inside, "steps": sim.step, "switches": sim.switches,
            "aborted": sim.aborted}  # fmt: skip


def run(scn):
    docs = proc.child(c01.make_docs, scn)
    ref = proc.child(once, scn, docs)
    if ref["aborted"] or ref["steps"] > LONG:
        return {"viol": None, "stats": {"too_long": 1}, "sig": "", "nontrivial": False, "sample": None}
    n = ref["outs"]["steps"]
    stats = {"calls": 0, "steps": ref["steps"], "calls_of_other_threads": 0}
    sig, viol = [], None
    for frac, kind, hook in scn["faults"] if n else ():
        if hook and ref["hooks"]:
            at, site = ref["hooks"][int(frac * len(ref["hooks"]))]
        else:
            at, site = 1 + int(frac * n), None
        got = proc.child(once, scn, docs, at, kind, limit(ref["steps"]))
        if not got["fired"] or got["inside"] in ("__hash__", "__eq__"):
            continue  # the interpreter's dict lookups clear exceptions of those
        stats["calls"] += 1
        stats["steps"] += got["steps"]
        f = f"fault:{kind} in {site or 'library or user code'}"
        stats[f] = stats.get(f, 0) + 1
        sig.append([kind, at, got["switches"]])
        where = {"interrupt": kind, "step": at, "of": n, "in": got["inside"]}
        if got["aborted"]:
            viol = {"kind": got["aborted"], "detail": dict(where, problem="the calls do not terminate")}
        elif not got["same"]:
            how = "swallowed" if got["outs"]["main"][0] == "ok" else "replaced"
            viol = {"kind": how, "detail": dict(where, caller_saw=got["outs"]["main"])}
        elif got["late"]:
            viol = {"kind": "delayed", "detail": dict(where, user_code_afterwards=got["late"][:3])}
        elif "other" in scn and "RecursionError" not in (got["outs"]["other"][1], ref["outs"]["other"][1]):
            stats["calls_of_other_threads"] += 1
            if got["outs"]["other"] != ref["outs"]["other"]:
                viol = {"kind": "other thread", "detail": dict(
                    where, alone=ref["outs"]["other"], got=got["outs"]["other"])}  # fmt: skip
        if viol:
            break
    return {
        "viol": viol, "stats": stats, "sig": json.dumps([scn["graphs"], scn["op"], scn.get("other"), sig]),
        "nontrivial": bool(sig), "sample": {"scenario": scn, "judged": [s[:2] for s in sig]},
    }  # fmt: skip


def shrink(scn):
    yield from sh.listkey(scn, "faults")
    if "other" in scn:
        c = {k: v for k, v in scn.items() if k not in ("other", "schedule")}
        yield c
    if scn["backend"]:
        yield dict(scn, backend=False)
    yield from sh.graphs(scn)
    for k in list(scn["op"]["o"]):
        o = dict(scn["op"]["o"])
        del o[k]
        yield dict(scn, op=dict(scn["op"], o=o))
    yield from sh.op_opts(scn, "docs")
