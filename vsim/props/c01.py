"""C01: concurrent calls give what each call gives alone."""

import json

from .. import graph, ops, proc
from .. import shrink as sh
from ..sched import LONG, Sim, limit

HEAVY_P = 0.35
FOCUS_P = 0.4
# kinds that take the same way through the library with different data
FAMILIES = [
    ["Excl", "SlotExcl", "ExclProp", "Plain", "Slots"],
    ["Handled", "HInst", "HBase", "HChild", "HCtx", "HKids", "HTmp"],
    ["State", "StateTuple", "StateTemp", "StateNoSet", "SNS", "StateSelf"],
    ["Red2", "Red3", "RedState", "Red6", "RedNew", "RedSelf", "RedTmp"],
    ["RedList", "RedDict", "RedSeq", "RedApp", "RedMap"],
    ["dict", "odict", "ddict", "DictSub", "DictItems", "UserDict"],
    ["NewArgs", "NewArgsEx", "InitArgs", "NT", "FrozenData", "TupleSub"],
    ["Slots", "SlotsSub", "SlotRead", "SlotPriv", "SlotsData", "SetAttr"],
    ["HSet", "SetAdd", "HashObj", "tuple", "ListSub", "ListApp"],
]


def gen_focus(rng):
    """Threads in step through the same code, each with data of its own."""
    keyed = rng.random() < 0.25
    hk = ()
    if rng.random() < 0.35:
        from .. import heavy

        hk = [rng.choice(heavy.KINDS)] * 4
    kinds = rng.choice(FAMILIES) if rng.random() < 0.7 else graph.ALL
    kinds = rng.sample(kinds, rng.randint(1, 3)) + rng.choice([[], ["list"]])
    leaves = rng.sample(graph.LEAF_KINDS, rng.randint(1, 2))
    if hk and rng.random() < 0.7:
        kinds, leaves = ["list"], hk
    nact = rng.choice([2, 2, 2, 3])
    graphs = []
    for _ in range(nact):
        graphs.append(graph.gen_graph(rng, size=rng.choice([1, 2, 2, 3, 4]), kinds=kinds, keyed=keyed, cyc=False,
                                      leaves=leaves, heavy_kinds=hk, share=0.2))  # fmt: skip
    docs = [{"g": a, "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed), "ghost": False} for a in range(nact)]
    first = gen_op(rng, graphs, nact, keyed, 0)
    ctxs = rng.random() < 0.4
    actors = []
    for a in range(nact):
        seq = []
        for _ in range(rng.choice([1, 1, 2])):
            op = json.loads(json.dumps(first))
            op["g" if "g" in op else "d"] = a
            if "ctx" in op:
                op["ctx"] = a
            if ctxs:
                op["o"]["handler_context"] = f"c{a}"
            seq.append(op)
        actors.append(seq)
    p = rng.choice([1.0, 0.9, 0.5, 0.3])
    return {
        "graphs": graphs, "docs": docs, "actors": actors,
        "grain": rng.choice(["line", "line", "op"]),
        "schedule": {"mode": "rand", "p": p, "p_hook": p, "seed": rng.randrange(1 << 30)},
    }  # fmt: skip


def gen(rng, heavy_p=HEAVY_P, focus_p=FOCUS_P):
    if rng.random() < focus_p:
        return gen_focus(rng)
    keyed = rng.random() < 0.3
    hk = ()
    if rng.random() < heavy_p:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, rng.randint(1, 3))
    plain = rng.random() < 0.1
    ngraph = rng.choice([1, 1, 2, 3])
    graphs = []
    for _ in range(ngraph):
        size = rng.choice([1, 2, 3, 4, 6, 9])
        if plain:
            g = graph.gen_graph(rng, size=size, keyed=keyed, cyc=False,
                                kinds=sorted(graph._PROPS), leaves=graph.PRIM_KINDS)  # fmt: skip
        else:
            g = graph.gen_graph(rng, size=size, keyed=keyed, heavy_kinds=hk)
        graphs.append(g)
    docs = []
    for _ in range(rng.randint(1, 3)):
        docs.append({
            "g": rng.randrange(ngraph),
            "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed),
            "ghost": rng.random() < 0.2,
        })  # fmt: skip
    nact = rng.choice([2, 2, 2, 3, 4])
    actors = []
    for a in range(nact):
        seq = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            seq.append(gen_op(rng, graphs, len(docs), keyed, a))
        actors.append(seq)
    if rng.random() < 0.3:  # identical work in every thread
        actors = [actors[0] for _ in range(nact)]
        actors = json.loads(json.dumps(actors))
        for a, seq in enumerate(actors):
            for op in seq:
                if "ctx" in op:
                    op["ctx"] = a
    scn = {
        "graphs": graphs, "docs": docs, "actors": actors,
        "grain": rng.choice(["line", "line", "line", "op", "call"]),
        "schedule": gen_schedule(rng),
    }  # fmt: skip
    return scn


def gen_op(rng, graphs, ndocs, keyed, a):
    r = rng.random()
    g = rng.randrange(len(graphs))
    cyc = any(x["cyc"] for x in graphs)
    props = graph.props_ok(*graphs) and not cyc
    if r < 0.45:
        op = {"op": "encode", "g": g, "o": ops.gen_enc_opts(rng, keyed=keyed, cyc=cyc, props=props)}
    elif r < 0.85:
        op = {"op": "decode", "d": rng.randrange(ndocs), "o": ops.gen_dec_opts(rng, keyed=keyed)}
    elif r < 0.93:
        op = {"op": "flatten", "g": g, "o": ops.gen_enc_opts(rng, keyed=keyed, cyc=cyc, props=props), "ctx": a}
        op["o"].pop("indent", None)
    else:
        op = {"op": "restore", "d": rng.randrange(ndocs), "o": ops.gen_dec_opts(rng, keyed=keyed), "ctx": a}
    if op["op"] in ("encode", "decode") and rng.random() < 0.25:
        op["ctx"] = a
    if has_arrays(graphs):
        op["o"].pop("v1_decode", None)
    return op


def has_arrays(graphs):
    """Wrong references (v1_decode on new documents) may put a list into
    itself, which numpy expands to the maximal number of dimensions, and leave
    placeholders in sets, which are ordered by their addresses."""
    return any(n["k"] in (*graph.HNODES, "HSet", "SetAdd") for g in graphs for n in g["nodes"])


def gen_schedule(rng):
    m = rng.random()
    seed = rng.randrange(1 << 30)
    if m < 0.65:
        p = rng.choice([0.5, 0.2, 0.1, 0.05, 0.02])
        return {"mode": "rand", "p": p, "p_hook": rng.choice([p, 0.5, 0.8]), "seed": seed}
    # change points are placed once the length of the run is known
    return {"mode": "pct", "d": rng.choice([1, 2, 3, 5, 8]), "seed": seed}


def make_docs(scn):
    env = ops.Env(scn)
    docs = []
    for d in scn["docs"]:
        import jsonpickle

        kw = ops.enc_kwargs(d["o"])
        text = jsonpickle.encode(env.graphs[d["g"]], **kw)
        if d.get("ghost"):
            text = text.replace("vsim.zoo.Sub", "nowhere.Local")
        docs.append(text)
    return docs


def reference(scn):
    """Every call alone, in a process of its own."""
    docs = make_docs(scn)
    sim = Sim(grain=scn["grain"])
    env = ops.Env(scn, docs, sim)
    outs = []
    steps = []

    def alone(a):
        for seq in scn["actors"]:
            before = a.steps
            outs.append([ops.perform(op, env, a) for op in seq])
            steps.append(a.steps - before)

    sim.run([alone])
    return {"docs": docs, "outs": outs, "steps": steps, "aborted": sim.aborted}


def concurrent(scn, docs, steps):
    sim = Sim(schedule=scn["schedule"], grain=scn["grain"], max_steps=limit(steps))
    env = ops.Env(scn, docs, sim)
    outs = [[] for _ in scn["actors"]]

    def make(i):
        def body(a):
            for op in scn["actors"][i]:
                outs[i].append(ops.perform(op, env, a))

        return body

    sim.run([make(i) for i in range(len(scn["actors"]))])
    return {
        "outs": outs, "switches": sim.switches, "aborted": sim.aborted,
        "steps": sim.step, "trail": sim.trail,
    }  # fmt: skip


def resolve(scn, steps):
    """Fix the pct change points from the measured length."""
    sch = scn["schedule"]
    if sch["mode"] == "pct" and "points" not in sch:
        import random

        rng = random.Random(sch["seed"] ^ 0x5EED)
        total = max(2, sum(steps))
        pts = sorted(rng.randrange(1, total) for _ in range(sch["d"]))
        scn = dict(scn)
        scn["schedule"] = dict(sch, points=pts)
    return scn


def run(scn):
    ref = proc.child(reference, scn)
    if ref["aborted"] or sum(ref["steps"]) > LONG:
        return result(scn, None, ref, None)
    scn = resolve(scn, ref["steps"])
    got = proc.child(concurrent, scn, ref["docs"], sum(ref["steps"]))
    viol = None
    if got["aborted"]:
        viol = {"kind": got["aborted"], "detail": "the calls do not terminate under this schedule"}
    else:
        for i, seq in enumerate(scn["actors"]):
            for j, op in enumerate(seq):
                if ref["outs"][i][j][1] == "RecursionError":
                    continue  # depends on the stack depth of the caller
                if got["outs"][i][j] != ref["outs"][i][j]:
                    viol = {
                        "kind": "interference",
                        "detail": {
                            "actor": i, "op": op, "alone": ref["outs"][i][j],
                            "concurrent": got["outs"][i][j],
                        },
                    }  # fmt: skip
                    break
            if viol:
                break
    return result(scn, viol, ref, got)


def result(scn, viol, ref, got):
    stats = {"too_long": 1} if got is None else {}
    sig = ""
    if got is not None:
        calls = [op for seq in scn["actors"] for op in seq]
        stats = {
            "steps": got["steps"], "calls": len(calls),
            "calls_ended_in_exception": sum(o[0] == "exc" for s in got["outs"] for o in s),
            "grain_op_runs": scn["grain"] == "op",
            "max:switches_in_one_run": len(got["switches"]),
        }  # fmt: skip
        stats["fault:preemption"] = len(got["switches"])
        for op in calls:
            stats["calls_" + op["op"]] = stats.get("calls_" + op["op"], 0) + 1
        sig = json.dumps([scn["graphs"], scn["actors"], got["switches"]])
    return {
        "viol": viol, "stats": stats, "sig": sig,
        "nontrivial": got is not None and len(got["switches"]) > len(scn["actors"]),
        "sample": {"scenario": scn, "switches": got["switches"][:40] if got else None},
    }  # fmt: skip


def explicit(scn):
    ref = proc.child(reference, scn)
    got = proc.child(concurrent, resolve(scn, ref["steps"]), ref["docs"], sum(ref["steps"]))
    new = dict(scn)
    new["schedule"] = {"mode": "explicit", "switches": got["switches"]}
    return new


def shrink(scn):
    yield from sh.actors(scn)
    yield from sh.switches(scn)
    yield from sh.graphs(scn)
    yield from sh.op_opts(scn, "actors")
    yield from sh.op_opts(scn, "docs")
    used = {op.get("d") for seq in scn["actors"] for op in seq}
    if len(scn["docs"]) > 1 and (len(scn["docs"]) - 1) not in used:
        yield dict(scn, docs=scn["docs"][:-1])
