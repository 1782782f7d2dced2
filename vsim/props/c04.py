"""C04: exceptions of user code reach the caller."""

import json

from .. import graph, ops, proc
from .. import shrink as sh
from ..faults import ENC_SITES, FATAL, ORDINARY, documented_fallback
from ..single import Runner
from . import c01

UNJUDGED = {"keyrepr", "fail_safe"}


def gen(rng):
    keyed = rng.random() < 0.25
    hk, kinds = (), graph.ALL + graph.ONCE
    if rng.random() < 0.35:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, 1)
        kinds = graph.ALL + graph.ONCE + graph.HNODES * 8
    if rng.random() < 0.1:
        g = graph.gen_graph(rng, size=rng.choice([1, 2, 4]), keyed=False, cyc=False,
                            kinds=sorted(graph._PROPS), leaves=graph.PRIM_KINDS)  # fmt: skip
    else:
        g = graph.gen_graph(rng, size=rng.choice([1, 2, 3, 4, 6, 9]), keyed=keyed, heavy_kinds=hk, kinds=kinds)
        g = graph.ensure_hooked(rng, g)
    missing = rng.random() < 0.08
    if missing:
        g = graph.gen_graph(rng, size=rng.choice([1, 2, 4]), keyed=keyed, kinds=["Sub", "Plain", "list", "dict"])
        g["nodes"][-1]["k"] = "Sub"
    docs = [{"g": 0, "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed), "ghost": missing or rng.random() < 0.1}]
    op = c01.gen_op(rng, [g], 1, keyed, "c")
    if missing:
        op = {"op": "decode", "d": 0, "o": dict(ops.gen_dec_opts(rng, keyed=keyed), on_missing="callback")}
        op["o"].pop("classes", None)
    op["o"].pop("fail_safe", None)
    faults = []
    for _ in range(rng.choice([2, 4, 6])):
        exc = rng.choice(ORDINARY if rng.random() < 0.9 else FATAL)
        if rng.random() < 0.4:
            exc = rng.choice(["TypeError", "AttributeError", "KeyError", "ValueError", "IndexError"])
        faults.append([rng.random(), exc])
    return {"graphs": [g], "docs": docs, "op": op, "faults": faults}


def once(scn, docs, op, counts):
    r = Runner(scn, docs, counts)
    r.run(lambda a: r.perform(op, "0", a, keep=True))
    out = r.outs.get("0")
    exc = r.raised.get("0", [])
    same = bool(exc) and out is not None and out[0] == "exc" and r.env.keep[-1] is exc[0]
    return {"out": out, "sites": r.sites.get("0", []), "raised": len(exc), "same": same,
            "fired": r.fired, "steps": r.sim.step, "aborted": r.sim.aborted}  # fmt: skip


def run(scn):
    docs = proc.child(c01.make_docs, scn)
    ref = proc.child(once, scn, docs, scn["op"], {})
    n = len(ref["sites"])
    stats = {"calls": 0, "steps": ref["steps"]}
    sig, viol = [], None
    for frac, exc in scn["faults"] if n else ():
        at = min(n - 1, int(frac * n))
        site = ref["sites"][at][0]
        if site in ENC_SITES and scn["op"]["op"] in ("decode", "restore"):
            continue  # numpy or pandas looking at a restored value
        if site == "hash" and scn["op"]["op"] in ("encode", "flatten"):
            continue  # the iterator of an OrderedDict replaces it
        if site in UNJUDGED or documented_fallback(site, exc):
            continue
        op = dict(scn["op"], acts=[[frac, ["raise", exc]]])
        got = proc.child(once, scn, docs, op, {"0": n})
        if not got["raised"]:
            continue
        stats["calls"] += 1
        stats["steps"] += got["steps"]
        for f in got["fired"]:
            stats["fault:" + f] = stats.get("fault:" + f, 0) + 1
        sig.append([exc, at])
        if not got["same"]:
            viol = {
                "kind": "swallowed" if got["out"][0] == "ok" else "replaced",
                "detail": {"raised": exc, "site": site, "firing": at, "caller saw": got["out"]},
            }  # fmt: skip
            break
    return {
        "viol": viol, "stats": stats, "sig": json.dumps([scn["graphs"], scn["op"], sig]),
        "nontrivial": bool(sig), "sample": {"scenario": scn, "judged": sig},
    }  # fmt: skip


def shrink(scn):
    yield from sh.listkey(scn, "faults")
    yield from sh.graphs(scn)
    for k in list(scn["op"]["o"]):
        o = dict(scn["op"]["o"])
        del o[k]
        yield dict(scn, op=dict(scn["op"], o=o))
    yield from sh.op_opts(scn, "docs")
