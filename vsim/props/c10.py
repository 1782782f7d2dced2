"""C10: serialization only observes its input."""

import copy
import json

import jsonpickle
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import graph, ops, proc, zoo
from .. import shrink as sh
from ..faults import EXC
from ..sched import LONG, Sim, limit
from ..snap import Snapshot
from . import c01
from .c03 import HOOK_EXC

BASE = 100


def gen(rng):
    r = rng.random()
    mode = "enc" if r < 0.4 else "mut" if r < 0.75 else "res"
    keyed = rng.random() < 0.25
    hk, kinds = (), graph.ALL
    if rng.random() < 0.3:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, rng.randint(1, 3))
        kinds = graph.ALL + graph.HNODES * 4
    plain = rng.random() < 0.15
    size = rng.choice([1, 2, 3, 4, 6, 9, 12])
    if plain:
        g = graph.gen_graph(rng, size=size, cyc=False, kinds=sorted(graph._PROPS), leaves=graph.PRIM_KINDS)
    else:
        g = graph.gen_graph(rng, size=size, keyed=keyed, heavy_kinds=hk, kinds=kinds)
        if rng.random() < 0.7:
            g = graph.ensure_hooked(rng, g)
    scn = {"mode": mode, "graphs": [g], "grain": rng.choice(["line", "line", "op", "call"])}
    props = graph.props_ok(g) and not g["cyc"]
    if mode == "res":
        scn["docs"] = [{"g": 0, "o": ops.gen_enc_opts(rng, faithful=True, keyed=keyed), "ghost": rng.random() < 0.2}]
        for k in ("unpicklable", "make_refs"):
            if rng.random() < 0.1 and not g["cyc"]:
                scn["docs"][0]["o"][k] = False
        scn["direct"] = rng.random() < 0.5
        scn["o"] = ops.gen_dec_opts(rng, keyed=keyed)
        if c01.has_arrays([g]):
            scn["o"].pop("v1_decode", None)
        n = rng.choice([2, 2, 3])
        scn["calls"] = [gen_fault(rng) if i < n - 1 else None for i in range(n)]
        scn["share"] = rng.random() < 0.5
        scn["threads"] = rng.random() < 0.25
        scn["schedule"] = c01.gen_schedule(rng)
        return scn
    scn["encs"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = {"op": rng.choice(["encode", "encode", "flatten"]),
              "o": ops.gen_enc_opts(rng, keyed=keyed, cyc=g["cyc"], props=props)}  # fmt: skip
        if mode == "mut":
            op["o"].pop("handle_readonly", None)
        elif rng.random() < 0.15:
            op["o"]["handle_readonly"] = True
        op["f"] = gen_fault(rng)
        scn["encs"].append(op)
    if any("handle_readonly" in op["o"] for op in scn["encs"]) and not g["cyc"] and rng.random() < 0.7:
        g["nodes"][0] = {"k": "ClsAttr", "c": g["nodes"][0]["c"]}
    if mode == "mut":
        scn["muts"] = [
            [rng.randrange(size), rng.randrange(6), rng.randrange(4), rng.random()] for _ in range(rng.choice([1, 2, 4, 8]))
        ]
        scn["rounds"] = rng.choice([1, 1, 5, 20])
        if scn["rounds"] > 1:  # many updates of few places, which stay the same places
            for m in scn["muts"]:
                m[1] = rng.choice([0, 0, 3])
        scn["by"] = rng.choice(["hook", "thread", "thread"])
        scn["schedule"] = c01.gen_schedule(rng)
    return scn


def gen_fault(rng):
    r = rng.random()
    if r < 0.3:
        return ["hook", rng.random(), rng.choice(HOOK_EXC)]
    if r < 0.65:
        return ["int", rng.random(), rng.choice(["kbd", "kbd", "mem", "stk", "exit"])]
    return None


def kwargs(op, flat):
    kw = ops.enc_kwargs(op["o"])
    if flat:
        kw = {k: v for k, v in kw.items() if k in ops.CTX_ENC}
    return kw


def encode(op, obj, kw):
    if op["op"] == "flatten":
        return Pickler(**kw).flatten(obj)
    return jsonpickle.encode(obj, **kw)


class Faults:
    """Arms one fault per call, placed by the length of the call alone."""

    def __init__(self, grain, schedule=None, refs=None, times=1):
        self.at = None
        self.exc = None
        self.n = 0
        self.fired = []
        self.extra = None
        self.sim = Sim(grain=grain, on_hook=self.on_hook, schedule=schedule, arm=bool(refs))
        if refs:
            self.sim.max_steps = limit(times * sum(r["steps"] for r in refs))

    def arm(self, a, f, ref):
        self.at = None
        self.n = 0
        self.sim.interrupts.clear()
        if f and ref:
            if f[0] == "hook" and ref["hooks"]:
                self.at = min(ref["hooks"] - 1, int(f[1] * ref["hooks"]))
                self.exc = f[2]
            elif f[0] == "int" and ref["steps"]:
                at = a.steps + 1 + min(ref["steps"] - 1, int(f[1] * ref["steps"]))
                self.sim.interrupts[a.idx, at] = f[2]

    def on_hook(self, sim, a, site, nid, n, obj):
        i = self.n
        self.n += 1
        if self.extra is not None:
            self.extra(i)
        if i == self.at:
            self.fired.append(f"{self.exc} in {site}")
            raise EXC[self.exc]("injected", site)

    def guarded(self, a, fn, *args):
        """fn under tracing; its outcome."""
        try:
            with ops.traced(self.sim, a):
                return ["ok", fn(*args)]
        except ops.GIVE_UP:
            raise
        except BaseException as e:  # noqa: BLE001 - the outcome under test
            if self.sim.aborted:
                raise ops.GIVE_UP[0](self.sim.aborted) from None
            return ops.exc_outcome(e)

    def all_fired(self):
        return self.fired + [f[0] for f in self.sim.fired]


def build(scn):
    nodes = []
    root = graph.build(scn["graphs"][0], BASE, nodes)
    return root, nodes


# -- one thread: nothing changes -------------------------------------------


def enc_run(scn, refs):
    """refs: lengths per call, or None to measure."""
    fl = Faults(scn["grain"], None, refs)
    root, nodes = build(scn)
    if scn.get("sort"):
        jsonpickle.set_encoder_options("json", sort_keys=True)
    out = {"lens": [], "changes": None, "outs": []}

    def body(a):
        for i, op in enumerate(scn["encs"]):
            kw = kwargs(op, op["op"] == "flatten")
            fl.sim.quiet(a, True)
            snap = Snapshot(root, nodes, kw)
            fl.sim.quiet(a, False)
            fl.arm(a, op["f"], refs and refs[i])
            before = a.steps
            res = fl.guarded(a, encode, op, root, kw)
            out["outs"].append(res[0] if res[0] == "ok" else res[1])
            out["lens"].append({"steps": a.steps - before, "hooks": fl.n})
            del res
            fl.sim.quiet(a, True)
            ch = snap.changes()
            fl.sim.quiet(a, False)
            if ch and out["changes"] is None:
                out["changes"] = [i, ch[:20]]

    fl.sim.run([body])
    return dict(out, fired=fl.all_fired(), steps=fl.sim.step, aborted=fl.sim.aborted)


# -- updates by others are kept ---------------------------------------------


def mutate(obj, kind, k, n):
    """One update, a function of the object's shape only.

    Returns (place, check) if the update can be read back.
    """
    val = ["new", n, {"k": k}]
    if isinstance(obj, list):
        if kind < 2 and len(obj):
            x = k % len(obj)
            list.__setitem__(obj, x, val)
            return x, lambda: list.__getitem__(obj, x) is val
        if kind == 2 and len(obj) > 1:
            list.pop(obj)
        else:
            list.append(obj, val)
        return None
    if isinstance(obj, dict):
        d = obj
        names = list(dict.keys(d))
    elif hasattr(obj, "__dict__") and type(obj).__module__ == "vsim.zoo":
        d = obj.__dict__
        names = [x for x in d if x != "nid"]
        if kind == 1 and names and isinstance(d[names[k % len(names)]], list):
            d[names[k % len(names)]].append(val)
            return None
    elif isinstance(obj, zoo.Slots):
        x = "a%d" % (k % 2)
        setattr(obj, x, val)
        return x, lambda: getattr(obj, x) is val
    else:
        return None
    if kind == 2 and names:
        dict.__delitem__(d, names[k % len(names)])
        return None
    x = names[k % len(names)] if kind < 2 and names else "w%d" % k
    dict.__setitem__(d, x, val)
    return repr(x), lambda: dict.get(d, x) is val


def mut_run(scn, refs):
    hooks = scn["by"] == "hook"
    fl = Faults(scn["grain"], None if hooks or refs is None else scn["schedule"], refs)
    root, nodes = build(scn)
    done = []
    lost = []
    places = {}
    lens = [None] * len(scn["encs"])

    def update(j):
        m = scn["muts"][j]
        if scn["rounds"] > 1:
            lost.extend([str(p), j] for p, ok in places.items() if not ok())
        fl.sim.quiet(fl.sim.current, True)  # keys have hooks of their own
        try:
            r = mutate(nodes[m[0] % len(nodes)], m[1], m[2], len(done))
        finally:
            fl.sim.quiet(fl.sim.current, False)
        if r:
            places[m[0] % len(nodes), r[0]] = r[1]
        done.append(j)

    def encoder(idx, ops_):
        def body(a):
            for i, op in ops_:
                kw = kwargs(op, op["op"] == "flatten")
                if hooks or refs is None:
                    fl.arm(a, op["f"] if hooks else None, refs and refs[i])
                before, h0 = a.steps, fl.n
                fl.guarded(a, encode, op, root, kw)
                lens[i] = {"steps": a.steps - before, "hooks": fl.n - h0 if not hooks else fl.n}

        return body

    def mutator(a):
        for _ in range(scn["rounds"]):
            for j in range(len(scn["muts"])):
                for _ in range(1 + int(scn["muts"][j][3] * 12)):
                    fl.sim.yield_point("pause")
                update(j)

    encs = list(enumerate(scn["encs"]))
    if hooks:
        total = sum(r["hooks"] for r in refs) if refs else 0
        plan = {}
        for j, m in enumerate(scn["muts"]):
            plan.setdefault(int(m[3] * total), []).append(j)
        box = {"n": 0}

        def extra(i):
            n = box["n"]
            box["n"] += 1
            for j in plan.get(n, ()) if total else ():
                update(j)

        fl.extra = extra
        bodies = [encoder(0, encs)]
    elif refs is None:
        bodies = [encoder(0, encs)]
    else:
        bodies = [encoder(0, encs[::2]), mutator]
        if encs[1::2]:
            bodies.append(encoder(1, encs[1::2]))
    fl.sim.run(bodies)
    out = {"lens": lens, "done": done, "fired": fl.all_fired(), "steps": fl.sim.step, "aborted": fl.sim.aborted,
           "switches": fl.sim.switches, "lost": lost[:10]}  # fmt: skip
    if refs is not None and not fl.sim.aborted:
        out["got"] = [graph.canon(root), [graph.canon(x) for x in nodes]]
        twin, tnodes = build(scn)
        for n, j in enumerate(done):
            m = scn["muts"][j]
            mutate(tnodes[m[0] % len(tnodes)], m[1], m[2], n)
        out["want"] = [graph.canon(twin), [graph.canon(x) for x in tnodes]]
    return out


# -- restoring --------------------------------------------------------------


def flat_data(scn):
    d = scn["docs"][0]
    root, _ = build(scn)
    kw = ops.enc_kwargs(d["o"])
    if scn["direct"] and not d["ghost"]:
        return Pickler(**{k: v for k, v in kw.items() if k in ops.CTX_ENC}).flatten(root)
    text = jsonpickle.encode(root, **kw)
    if d["ghost"]:
        text = text.replace("vsim.zoo.Sub", "nowhere.Local")
    return json.loads(text)


def res_run(scn, ref, faults):
    """ref: outcome and length of one restore in a fresh process."""
    threads = bool(ref and scn["threads"])
    fl = Faults(scn["grain"], scn["schedule"] if threads else None, ref and [ref], 2 * len(scn["calls"]))
    data = flat_data(scn)
    kw = ops.dec_kwargs(scn["o"])
    cl = kw.pop("classes", None)
    snap = Snapshot(data, cl, kw)
    text = json.dumps(data)
    outs = []
    lens = {}
    shared = Unpickler(**kw)

    def one(a, f):
        u = shared if scn["share"] and not threads else Unpickler(**kw)
        fl.arm(a, f if faults and not threads else None, ref)
        before, fb = a.steps, len(fl.all_fired())
        out = fl.guarded(a, u.restore, data, True, cl)
        lens.update(steps=a.steps - before, hooks=fl.n)
        if out[0] == "ok":
            fl.sim.quiet(a, True)
            out[1] = graph.canon(out[1])
            fl.sim.quiet(a, False)
        outs.append([out, len(fl.all_fired()) > fb])

    def body(a):
        for f in scn["calls"] if ref else [None]:
            one(a, f)

    fl.sim.run([body, body] if threads else [body])
    return {"outs": outs, "lens": lens, "changes": snap.changes()[:20], "same_text": json.dumps(data) == text,
            "fired": fl.all_fired(), "steps": fl.sim.step, "aborted": fl.sim.aborted, "switches": fl.sim.switches}  # fmt: skip


def long(dry, n=1):
    return dry["aborted"] or n * sum(r["steps"] for r in dry["lens"] if r) > LONG


TOO_LONG = {"viol": None, "stats": {"too_long": 1}, "sig": "", "nontrivial": False, "sample": None}


def run(scn):
    viol = None
    mode = scn["mode"]
    sw = []
    if mode == "enc":
        refs = None
        if any(op["f"] for op in scn["encs"]):
            dry = proc.child(enc_run, scn, None)
            if long(dry):
                return TOO_LONG
            refs = dry["lens"]
        got = proc.child(enc_run, scn, refs)
        calls, nontrivial = len(got["outs"]), True
        if got["changes"]:
            i, ch = got["changes"]
            viol = {"kind": "input-changed", "detail": {"call": scn["encs"][i], "changed": ch, "fired": got["fired"],
                                                        "outcomes": got["outs"]}}  # fmt: skip
    elif mode == "mut":
        dry = proc.child(mut_run, scn, None)
        if long(dry):
            return TOO_LONG
        sc = c01.resolve(scn, [r["steps"] for r in dry["lens"] if r] or [2])
        got = proc.child(mut_run, sc, [r or {"steps": 0, "hooks": 0} for r in dry["lens"]])
        if got["aborted"] == "step limit":  # the updates made the graph larger
            return TOO_LONG
        calls, nontrivial = len(scn["encs"]), bool(got["done"])
        sw = got["switches"]
        if got["lost"]:
            viol = {"kind": "update-undone", "detail": {"lost": got["lost"], "done": got["done"][-20:]}}
        elif not got["aborted"] and got["got"] != got["want"]:
            viol = {"kind": "update-undone", "detail": {"want": got["want"], "got": got["got"], "done": got["done"],
                                                        "fired": got["fired"]}}  # fmt: skip
    else:
        ref = proc.child(res_run, scn, None, False)
        one = dict(ref["lens"])
        if ref["aborted"] or one["steps"] > LONG / 4:
            return TOO_LONG
        sc = c01.resolve(scn, [one["steps"]] * 2)
        got = proc.child(res_run, sc, one, True)
        calls, nontrivial = len(got["outs"]), len(got["outs"]) > 1
        sw = got["switches"]
        want = ref["outs"][0][0]
        if got["changes"] or not got["same_text"]:
            viol = {"kind": "data-changed", "detail": {"changed": got["changes"], "fired": got["fired"]}}
        elif not got["aborted"]:
            for out, faulted in got["outs"]:
                if faulted or "RecursionError" in (want[1], out[1]):
                    continue
                if out != want:
                    viol = {"kind": "restored-differently", "detail": {"want": want, "got": out, "fired": got["fired"]}}
                    break
    if got["aborted"] and viol is None:
        viol = {"kind": got["aborted"], "detail": "the calls do not terminate"}
    stats = {"steps": got["steps"], "calls": calls, "mode_" + mode: 1, "fault:preemption": len(sw)}
    if mode == "mut":
        stats["fault:update during a call"] = len(got["done"])
    for f in got["fired"]:
        stats["fault:" + f] = stats.get("fault:" + f, 0) + 1
    return {
        "viol": viol, "stats": stats, "nontrivial": nontrivial,
        "sig": json.dumps([scn["graphs"], {k: v for k, v in scn.items() if k != "seed"}, got["fired"], sw]),
        "sample": {"scenario": scn, "fired": got["fired"]},
    }  # fmt: skip


def explicit(scn):
    if scn["mode"] == "enc" or "schedule" not in scn:
        return scn
    if scn["mode"] == "mut":
        dry = proc.child(mut_run, scn, None)
        sc = c01.resolve(scn, [r["steps"] for r in dry["lens"] if r] or [2])
        got = proc.child(mut_run, sc, [r or {"steps": 0, "hooks": 0} for r in dry["lens"]])
    else:
        one = dict(proc.child(res_run, scn, None, False)["lens"])
        got = proc.child(res_run, c01.resolve(scn, [one["steps"]] * 2), one, True)
    return dict(scn, schedule={"mode": "explicit", "switches": got["switches"]})


def shrink(scn):
    for key in ("encs", "muts", "calls"):
        if scn.get(key):
            for c in sh.listkey(scn, key):
                if c[key]:
                    yield c
    yield from sh.switches(scn)
    if scn["mode"] != "mut":
        yield from sh.graphs(scn)
    else:
        for c in sh.graphs(scn):
            if len(c["graphs"][0]["nodes"]) == len(scn["graphs"][0]["nodes"]):
                yield c
    yield from sh.op_opts(scn, "encs")
    yield from sh.op_opts(scn, "docs")
    if scn.get("o"):
        for k in scn["o"]:
            new = copy.deepcopy(scn)
            del new["o"][k]
            yield new
    for i, op in enumerate(scn.get("encs", ())):
        if op["f"]:
            yield dict(scn, encs=scn["encs"][:i] + [dict(op, f=None)] + scn["encs"][i + 1 :])
