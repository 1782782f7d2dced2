"""C03: no residue after failed, interrupted or successful calls."""

import json
import threading

from .. import graph, ops, proc
from .. import shrink as sh
from ..faults import EXC
from ..sched import LONG, Sim, limit
from . import c01

HOOK_EXC = ["ValueError", "KeyError", "AttributeError", "TypeError", "Oops",
            "RuntimeError", "KeyboardInterrupt", "SystemExit", "MemoryError", "OSError"]  # fmt: skip
TORN = ['{"a": ', "", "[1,", '{"py/object": "vsim.zoo.Plain"', '{"py/id": 1}', '[{"py/id": 7}, 1]',
        '{"py/object": "nowhere.X", "a": {"py/id": 0}}', '{"py/tuple": 3}', '{"py/reduce": 5}',
        '{"py/object": "vsim.zoo.Handled"}', '{"py/b64": 3}', '{"py/object": 7}']  # fmt: skip


def gen(rng):
    keyed = rng.random() < 0.3
    hk, kinds = (), graph.ALL
    # histories of decodes with and without classes= on documents of a class
    # that cannot be imported
    local = rng.random() < 0.25
    if local:
        kinds = graph.HOOKED + ["Sub"] * 20
    elif rng.random() < 0.3:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, rng.randint(1, 3))
        kinds = graph.ALL + graph.HNODES * 4
    graphs = []
    for i in range(rng.choice([1, 2, 3])):
        g = graph.gen_graph(rng, size=rng.choice([1, 2, 3, 4, 6, 9]), keyed=keyed, heavy_kinds=hk, kinds=kinds)
        graphs.append(graph.ensure_hooked(rng, g) if rng.random() < 0.7 else g)
    for k in ("Bad", "BadSet", "HRaw"):
        if rng.random() < 0.3:
            g = graph.gen_graph(rng, size=rng.choice([2, 4, 6]), cyc=False, keyed=keyed)
            g["nodes"][-1] = {"k": k, "c": []}
            graphs.append(g)
    enc = [i for i, g in enumerate(graphs) if not any(n["k"] in ("Bad", "HRaw") for n in g["nodes"])]
    docs = [
        {"g": rng.choice(enc), "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed),
         "ghost": local or rng.random() < 0.3}
        for _ in range(rng.randint(1, 3))
    ]  # fmt: skip
    cyc = any(g["cyc"] for g in graphs)
    ctxo = {
        "p": {k: v for k, v in ops.gen_enc_opts(rng, keyed=keyed, cyc=cyc).items() if k in ops.CTX_ENC},
        "u": {k: v for k, v in ops.gen_dec_opts(rng, keyed=keyed).items() if k in ops.CTX_DEC},
    }  # fmt: skip
    if c01.has_arrays(graphs):
        ctxo["u"].pop("v1_decode", None)
    hist = []
    n = rng.randint(2, 6)
    p_shared = rng.choice([0.2, 0.6, 0.9])
    for i in range(n):
        op = c01.gen_op(rng, graphs, len(docs), keyed, f"own{i}")
        if local and rng.random() < 0.8:
            op = {"op": rng.choice(["decode", "restore"]), "d": rng.randrange(len(docs)), "ctx": f"own{i}",
                  "o": ops.gen_dec_opts(rng, keyed=keyed)}  # fmt: skip
            op["o"].pop("classes", None)
            if rng.random() < 0.5:
                op["o"]["classes"] = ["nowhere.Local"]
        if rng.random() < p_shared:
            op["ctx"] = "s"
            o = {k: v for k, v in op["o"].items() if k in ("indent", "separators", "classes")}
            o.update(ctxo["p" if op["op"] in ("encode", "flatten") else "u"])
            op["o"] = o
        elif rng.random() < 0.1:
            op = {"op": "text", "s": rng.choice(TORN)}
        if rng.random() < 0.06:
            op = {"op": "text", "s": rng.choice(TORN)}
            if rng.random() < 0.7:
                op.update(ctx="s", o=ctxo["u"])
        r = rng.random()
        if i < n - 1 and r < 0.35:
            op["fault"] = ["hook", rng.random(), rng.choice(HOOK_EXC)]
        elif i < n - 1 and r < 0.75:
            op["fault"] = ["int", rng.random(), rng.choice(["kbd", "kbd", "mem", "stk", "exit"])]
        elif rng.random() < 0.15:
            op["thread"] = True
        hist.append(op)
    return {"graphs": graphs, "docs": docs, "ops": hist,
            "grain": rng.choice(["line", "line", "op", "call"])}  # fmt: skip


def dry(scn, docs, op):
    """The operation in a fresh process, without faults."""
    sim = Sim(grain=scn["grain"])
    env = ops.Env(scn, docs, sim)
    box = {}

    def body(a):
        box["out"] = ops.perform(op, env, a)
        box["steps"] = a.steps

    sim.run([body])
    return {"out": box.get("out"), "steps": box.get("steps", 0), "hooks": len(sim.hooklog), "aborted": sim.aborted}


def history(scn, docs, ref):
    state = {"at": None, "n": 0, "exc": None}
    fired = []

    def on_hook(sim, a, site, nid, n, obj):
        i = state["n"]
        state["n"] += 1
        if i == state["at"]:
            fired.append(f"{state['exc']} in {site}")
            raise EXC[state["exc"]]("injected", site)

    ints = any((op.get("fault") or [""])[0] == "int" for op in scn["ops"])
    sim = Sim(grain=scn["grain"], on_hook=on_hook, max_steps=limit(sum(r["steps"] for r in ref)), arm=ints)
    env = ops.Env(scn, docs, sim)
    outs = []

    def body(a):
        for op, r in zip(scn["ops"], ref):
            state.update(at=None, n=0)
            sim.interrupts.clear()
            f = op.get("fault")
            if f and f[0] == "hook" and r["hooks"]:
                state["at"] = min(r["hooks"] - 1, int(f[1] * r["hooks"]))
                state["exc"] = f[2]
            elif f and f[0] == "int" and r["steps"]:
                at = a.steps + 1 + min(r["steps"] - 1, int(f[1] * r["steps"]))
                sim.interrupts[a.idx, at] = f[2]
            before = len(fired) + len(sim.fired)
            if op.get("thread"):
                box = []
                t = threading.Thread(target=lambda op=op, box=box: box.append(ops.perform(op, env, a)))
                t.start()
                t.join()
                out = box[0] if box else ["exc", "thread died", ""]
            else:
                out = ops.perform(op, env, a)
            outs.append([out, len(fired) + len(sim.fired) > before])

    sim.run([body])
    return {"outs": outs, "fired": fired + [f[0] for f in sim.fired], "where": sim.fired,
            "steps": sim.step, "aborted": sim.aborted}  # fmt: skip


def run(scn):
    docs = proc.child(c01.make_docs, scn)
    cache, ref = {}, []
    for op in scn["ops"]:
        k = json.dumps({x: v for x, v in op.items() if x != "fault"}, sort_keys=True)
        if k not in cache:
            cache[k] = proc.child(dry, scn, docs, op)
        ref.append(cache[k])
    if any(r["aborted"] for r in ref) or sum(r["steps"] for r in ref) > LONG:
        return {"viol": None, "stats": {"too_long": 1}, "sig": "", "nontrivial": False, "sample": None}
    got = proc.child(history, scn, docs, ref)
    viol = None
    judged = after = 0
    seen_fault = False
    if got["aborted"]:
        viol = {"kind": got["aborted"], "detail": "the calls do not terminate"}
    else:
        for i, (out, faulted) in enumerate(got["outs"]):
            if faulted:
                seen_fault = True
                continue
            if "RecursionError" in (ref[i]["out"][1], out[1]):
                continue
            judged += 1
            after += seen_fault
            if out != ref[i]["out"]:
                viol = {
                    "kind": "residue",
                    "detail": {"call": i, "op": scn["ops"][i], "fresh": ref[i]["out"], "after history": out,
                               "faults": got["fired"]},
                }  # fmt: skip
                break
            seen_fault = seen_fault or out[0] == "exc"
    stats = {"steps": got["steps"], "calls": judged, "calls_judged_after_a_failure": after}
    for f in got["fired"]:
        stats["fault:" + f] = stats.get("fault:" + f, 0) + 1
    return {
        "viol": viol, "stats": stats,
        "sig": json.dumps([scn["graphs"], scn["ops"], got["fired"], got["where"]]),
        "nontrivial": after > 0,
        "sample": {"scenario": scn, "fired": got["fired"]},
    }  # fmt: skip


def shrink(scn):
    for c in sh.listkey(scn, "ops"):
        if c["ops"]:
            yield c
    yield from sh.graphs(scn)
    yield from sh.op_opts(scn, "docs")
    for i, op in enumerate(scn["ops"]):
        for k in ("fault", "thread"):
            if k in op:
                new = dict(op)
                del new[k]
                yield dict(scn, ops=scn["ops"][:i] + [new] + scn["ops"][i + 1 :])
