"""C07: documents cut short by a crash of their writer are rejected.

A simulated file receives the document in chunks; the writer may crash after
any byte, leaving a prefix, possibly with the rest of the last block full of
zeros.  A reader decodes what it finds, in between also the complete file.
"""

import json

import jsonpickle
from jsonpickle import backend as jbackend

from .. import graph, ops, proc
from .. import shrink as sh
from ..sched import Sim

BACKENDS = ["", "json", "simplejson", "ujson"]


def gen(rng):
    keyed = rng.random() < 0.3
    hk = ()
    if rng.random() < 0.2:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, rng.randint(1, 3))
    g = graph.gen_graph(rng, size=rng.choice([1, 2, 3, 4, 6, 9]), keyed=keyed, heavy_kinds=hk)
    if rng.random() < 0.8:
        g = graph.ensure_hooked(rng, g)
    reads = []
    pin = rng.random() < 0.5
    fixed = rng.choice(BACKENDS)
    for _ in range(rng.randint(3, 14)):
        r = {"o": ops.gen_dec_opts(rng, keyed=keyed), "bk": fixed if pin else rng.choice(BACKENDS)}
        r["how"] = rng.choice(["module", "module", "context", "own"])
        if rng.random() < 0.75:
            # anywhere, or close to either end where little is missing
            r["cut"] = rng.choice([["f", rng.random()], ["f", rng.random()], ["e", rng.choice([1, 1, 2, 3, 5, 8])], ["s", rng.choice([0, 1, 2, 4])]])
            r["block"] = rng.choice([0, 0, 16, 64, 512])
        reads.append(r)
    reads.append({"o": {"keys": True} if keyed else {}, "bk": fixed, "how": "context"})
    return {
        "graphs": [g], "reads": reads, "keyed": keyed,
        "wopts": ops.gen_enc_opts(rng, faithful=True, keyed=keyed),
        "wbk": rng.choice(BACKENDS), "raw": rng.random() < 0.3,
    }  # fmt: skip


def choose(bk):
    if not bk:
        return None
    b = jbackend.JSONBackend()
    b.set_preferred_backend(bk)
    b.enable_fallthrough(False)
    return b


def write(scn):
    env = ops.Env(scn)
    bk = choose(scn["wbk"])
    if scn.get("raw") and bk is not None:
        bk.set_encoder_options(scn["wbk"], ensure_ascii=False)
    kw = ops.enc_kwargs(scn["wopts"])
    return jsonpickle.encode(env.graphs[0], backend=bk, **kw)


def torn(text, r):
    """What a reader finds after the crash."""
    data = text.encode("utf-8", "surrogatepass")
    n = len(data)
    how, x = r["cut"]
    at = int(x * n) if how == "f" else n - x if how == "e" else x
    at = max(0, min(n - 1, at))
    data = data[:at]
    if r["block"] and (at % r["block"] or not at):
        data += b"\0" * min(r["block"] - at % r["block"], n - at)
    return data.decode("utf-8", "replace")


def read(text, r, env, sim):
    kw = ops.dec_kwargs(r["o"], env)
    bk = choose(r["bk"])
    if bk is not None:
        kw["backend"] = bk
    if r["how"] == "context":
        kw = {k: v for k, v in kw.items() if k in ("backend", "classes")}
        kw["context"] = env.unpickler("s", env.scn["reads"][-1]["o"])
    elif r["how"] == "own":
        ctx = {k: v for k, v in kw.items() if k in ops.CTX_DEC}
        kw = {"context": jsonpickle.Unpickler(**ctx), **{k: v for k, v in kw.items() if k in ("backend", "classes")}}
    try:
        v = jsonpickle.decode(text, **kw)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:  # noqa: BLE001 - the outcome under test
        return ["exc", type(e).__name__, isinstance(e, ValueError), ops.norm(str(e))[:200]]
    sim.quiet(sim.me(), True)
    try:
        return ["ok", graph.canon(v)]
    finally:
        sim.quiet(sim.me(), False)


def session(scn, text, only=None):
    """All reads in one process, or a single one in a fresh process."""
    sim = Sim(grain="hook")
    env = ops.Env(scn, [text], sim)
    outs = []

    def body(a):
        for i, r in enumerate(scn["reads"]):
            if only is not None and i != only:
                continue
            before = len(sim.hooklog)
            t = torn(text, r) if "cut" in r else text
            out = read(t, r, env, sim)
            outs.append([out, [h[1] for h in sim.hooklog[before:]][:5], len(t)])

    sim.run([body])
    return {"outs": outs, "steps": sim.step}


def run(scn):
    text = proc.child(write, scn)
    viol = None
    stats = {}
    if text[:1] not in "{[":
        return {"viol": None, "stats": stats, "sig": "", "nontrivial": False}
    got = proc.child(session, scn, text)
    seen = {}
    ntorn = nfull = 0
    for i, (r, (out, hooks, n)) in enumerate(zip(scn["reads"], got["outs"])):
        if "cut" in r:
            ntorn += 1
            k = "fault:write torn" + (" with zero-filled block" if r["block"] else "")
            stats[k] = stats.get(k, 0) + 1
            if out[0] == "ok":
                viol = {"kind": "torn document accepted", "detail": {"read": i, "how": r, "text": torn(text, r)[-300:], "value": out}}
            elif not out[2]:
                viol = {"kind": "not a backend error", "detail": {"read": i, "how": r, "text": torn(text, r)[-300:], "got": out}}
            elif hooks:
                viol = {"kind": "hooks ran", "detail": {"read": i, "how": r, "hooks": hooks}}
        else:
            nfull += 1
            k = json.dumps(r, sort_keys=True)
            if k not in seen:
                seen[k] = proc.child(session, scn, text, i)["outs"][0]
            if out != seen[k][0] and out[1] != "RecursionError":
                viol = {"kind": "complete document affected", "detail": {"read": i, "how": r, "alone": seen[k][0], "got": out}}
        if viol:
            break
    stats.update({"calls": ntorn + nfull, "steps": got["steps"], "torn_reads": ntorn, "complete_reads": nfull, "max:document_bytes": len(text)})
    return {
        "viol": viol, "stats": stats, "sig": json.dumps([text, scn["reads"]]), "nontrivial": ntorn > 0,
        "sample": {"scenario": scn, "text": text[:400]},
    }  # fmt: skip


def shrink(scn):
    yield from (c for c in sh.listkey(scn, "reads") if c["reads"])
    yield from sh.graphs(scn)
    yield from sh.op_opts(scn, "reads")
    for k in list(scn["wopts"]):
        yield dict(scn, wopts={x: v for x, v in scn["wopts"].items() if x != k})
