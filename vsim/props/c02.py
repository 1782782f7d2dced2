"""C02: calls nested inside hooks of another call."""

import json

from .. import graph, ops, proc
from .. import shrink as sh
from ..single import Runner, walk
from . import c01


def gen(rng):
    keyed = rng.random() < 0.3
    hk = ()
    kinds = graph.ALL
    r = rng.random()
    if r < 0.4:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, rng.randint(1, 3))
        kinds = graph.ALL + graph.HNODES * 6
    plain = rng.random() < 0.1
    graphs = []
    for i in range(rng.choice([1, 2, 3])):
        size = rng.choice([2, 3, 4, 6, 9])
        if plain:
            g = graph.gen_graph(rng, size=size, keyed=keyed, cyc=False,
                                kinds=sorted(graph._PROPS), leaves=graph.PRIM_KINDS)  # fmt: skip
        else:
            g = graph.gen_graph(rng, size=size, keyed=keyed, heavy_kinds=hk, kinds=kinds)
        graphs.append(graph.ensure_hooked(rng, g) if not plain else g)
    # graphs that fail on the way out and on the way in
    for k in ("Bad", "BadSet"):
        if rng.random() < 0.5:
            g = graph.gen_graph(rng, size=rng.choice([2, 4]), cyc=False, keyed=keyed)
            j = len(g["nodes"]) - 1
            g["nodes"][j] = {"k": k, "c": []}
            graphs.append(g)
    enc = [i for i, g in enumerate(graphs) if not any(n["k"] == "Bad" for n in g["nodes"])]
    docs = [
        {"g": rng.choice(enc), "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed),
         "ghost": rng.random() < 0.25}
        for _ in range(rng.randint(1, 3))
    ]  # fmt: skip
    if rng.random() < 0.15 and not keyed:
        graph.repr_keys(rng, graphs)
    op = gen_op(rng, graphs, len(docs), keyed, rng.choice([1, 1, 2, 3]))
    return {"graphs": graphs, "docs": docs, "ops": [op]}


def gen_op(rng, graphs, ndocs, keyed, depth, uid="o"):
    if rng.random() < 0.05:
        return {"op": "text", "s": rng.choice(['{"a": ', "", "[1,", '{"py/object": "nowhere.X"}'])}
    op = c01.gen_op(rng, graphs, ndocs, keyed, uid)
    if rng.random() < 0.08:
        op["acts"] = [[rng.random(), ["raise", rng.choice(["ValueError", "Oops", "KeyError", "KeyboardInterrupt"])]]]
    if depth > 0:
        acts = op.setdefault("acts", [])
        for i in range(rng.choice([1, 1, 2, 4])):
            acts.append([rng.random(), ["nest", gen_op(rng, graphs, ndocs, keyed, depth - 1, f"{uid}{i}")]])
        if rng.random() < 0.1:
            acts.append([rng.random(), ["gc"]])
    return op


def alone(scn, op, docs, counts, path):
    """The operation by itself; its own injected failures stay."""
    r = Runner(scn, docs, counts, nested=False)
    r.run(lambda a: r.perform(op, path, a))
    return {"out": r.outs.get(path), "sites": r.sites.get(path, []), "aborted": r.sim.aborted}


def nested(scn, docs, counts):
    r = Runner(scn, docs, counts)

    def body(a):
        for i, op in enumerate(scn["ops"]):
            r.perform(op, str(i), a)

    r.run(body)
    return {
        "outs": r.outs, "fired": r.fired, "steps": r.sim.step, "aborted": r.sim.aborted,
        "sites": r.sites,
    }  # fmt: skip


def run(scn):
    docs = proc.child(c01.make_docs, scn)
    counts, refs = {}, {}
    for i, top in enumerate(scn["ops"]):
        for path, op in walk(top, str(i)):
            dry = proc.child(alone, scn, op, docs, {}, path)
            counts[path] = len(dry["sites"])
            if any(act[0] == "raise" for _, act in op.get("acts", ())):
                dry = proc.child(alone, scn, op, docs, counts, path)
            refs[path] = dry
    got = proc.child(nested, scn, docs, counts)
    viol = None
    if got["aborted"]:
        viol = {"kind": got["aborted"], "detail": "the calls do not terminate"}
    else:
        judged = 0
        for path, out in got["outs"].items():
            ref = refs[path]["out"]
            if "RecursionError" in (ref[1], out[1]):
                continue
            judged += 1
            if out != ref:
                viol = {
                    "kind": "nested" if "." in path else "outer",
                    "detail": {"path": path, "alone": ref, "in simulation": out, "fired": got["fired"]},
                }  # fmt: skip
                break
    stats = {"steps": got["steps"], "calls": len(got["outs"]), "nested_calls": sum("." in p for p in got["outs"]),
             "max:nesting_depth": max((p.count(".") for p in got["outs"]), default=0),
             "calls_ended_in_exception": sum(o[0] == "exc" for o in got["outs"].values())}  # fmt: skip
    for f in got["fired"]:
        stats["fault:" + f] = stats.get("fault:" + f, 0) + 1
    return {
        "viol": viol, "stats": stats,
        "sig": json.dumps([scn["graphs"], got["fired"], got["sites"]]),
        "nontrivial": any("." in p for p in got["outs"]),
        "sample": {"scenario": scn, "fired": got["fired"]},
    }  # fmt: skip


def shrink(scn):
    yield from acts(scn)
    yield from sh.graphs(scn)
    yield from sh.op_opts(scn, "ops")
    yield from sh.op_opts(scn, "docs")


def acts(scn, key="ops"):
    """Remove single actions anywhere in the trees."""
    import copy

    def sites(x):
        if isinstance(x, dict):
            if x.get("acts"):
                yield x
            for v in x.values():
                yield from sites(v)
        elif isinstance(x, list):
            for v in x:
                yield from sites(v)

    n = len(list(sites(scn[key])))
    for i in range(n):
        m = len(list(sites(scn[key]))[i]["acts"])
        for j in range(m):
            new = copy.deepcopy(scn[key])
            del list(sites(new))[i]["acts"][j]
            yield dict(scn, **{key: new})
