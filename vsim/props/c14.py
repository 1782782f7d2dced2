"""C14: finished calls let go of the caller's objects."""

import enum
import gc
import json
import types
import weakref

import jsonpickle
from jsonpickle.backend import JSONBackend
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import graph, ops, proc, zoo
from .. import shrink as sh
from ..faults import EXC, ORDINARY
from ..sched import LONG, Sim, limit
from . import c01


def gen_call(rng, depth=0):
    keyed = rng.random() < 0.25
    hk = ["canary"] * 3 + ["mark"]
    kinds = graph.ALL
    props = rng.random() < 0.1
    if rng.random() < 0.25 and not props:
        from .. import heavy

        hk = hk + rng.sample(heavy.KINDS, 2)
        kinds = graph.ALL + graph.HNODES * 8
    size = rng.choice([1, 2, 3, 4, 6])
    if props:
        g = graph.gen_graph(rng, size=size, kinds=sorted(graph._PROPS), leaves=[*graph.PRIM_KINDS, *hk], cyc=False)
        keyed = False
    else:
        g = graph.gen_graph(rng, size=size, keyed=keyed, heavy_kinds=hk, kinds=kinds)
    if rng.random() < 0.5 and not props:
        g = graph.ensure_hooked(rng, g)
    decode = rng.random() < 0.5
    c = {"g": g, "decode": decode, "eo": ops.gen_enc_opts(rng, faithful=True, keyed=keyed)}
    if decode:
        c["o"] = ops.gen_dec_opts(rng, keyed=keyed)
        if c01.has_arrays([g]):
            c["o"].pop("v1_decode", None)
        c["ghost"] = rng.random() < 0.15
    else:
        c["o"] = ops.gen_enc_opts(rng, keyed=keyed, cyc=g["cyc"], props=props)
    for k, p in (("ctx", 0.15), ("hctx", 0.3), ("backend", 0.1), ("repeat", 0.15)):
        if rng.random() < p:
            c[k] = True
    acts = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        r = rng.random()
        if r < 0.5:
            acts.append([rng.random(), ["raise", rng.choice([*ORDINARY, "KeyboardInterrupt"])]])
        elif r < 0.65:
            acts.append([rng.random(), ["gc"]])
        elif depth < 2:
            acts.append([rng.random(), ["nest", gen_call(rng, depth + 1)]])
    c["acts"] = acts
    if depth == 0 and rng.random() < 0.3:
        c["int"] = [rng.random(), rng.choice(["kbd", "mem", "stk", "exit"])]
    return c


def gen(rng):
    if rng.random() < 0.2:
        actors = []
        for _ in range(rng.choice([2, 2, 3])):
            seq = [gen_call(rng) for _ in range(rng.choice([1, 2]))]
            actors.append(seq)
        for seq in actors:
            for c in seq:
                c["acts"] = [x for x in c["acts"] if x[1][0] == "raise"]
        return {"actors": actors, "grain": rng.choice(["line", "line", "op", "call"]), "schedule": c01.gen_schedule(rng)}
    calls = [gen_call(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    return {"actors": [calls], "grain": rng.choice(["line", "line", "op"]), "schedule": None}


# -- what the caller can see alive -------------------------------------------

SKIP = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.CodeType, types.FrameType, enum.Enum, str, bytes, int, float)
HEAVY = ("numpy", "pandas")


def ours(o):
    if isinstance(o, (type, enum.Enum)):
        return False
    m = type(o).__module__
    return m == zoo.__name__ or m.split(".")[0] in HEAVY


def reachable(root):
    """Weak references to the recognisable objects of a graph."""
    out = []
    seen = set()
    todo = [root]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if ours(o):
            note(out, o)
            if type(o).__name__ == "ndarray" and o.dtype.hasobject:
                todo.extend(o.ravel().tolist())
                continue
        if isinstance(o, SKIP) and not ours(o):
            continue
        if type(o).__module__.split(".")[0] in HEAVY:
            continue
        todo.extend(gc.get_referents(o))
    return out


def note(out, o):
    try:
        out.append([type(o).__name__, weakref.ref(o)])
    except TypeError:
        pass


def left(refs):
    gc.collect()
    return [name for name, r in refs if r() is not None]


def holders(refs):
    """Who refers to what is left, for the report."""
    out = set()
    for _, r in refs:
        o = r()
        if o is not None:
            for h in gc.get_referrers(o):
                if not isinstance(h, types.FrameType):
                    out.add(type(h).__name__)
    return sorted(out)[:6]


# -- execution ---------------------------------------------------------------


def make_doc(c):
    text = jsonpickle.encode(graph.build(c["g"]), **ops.enc_kwargs(c["eo"]))
    return text.replace("vsim.zoo.Sub", "nowhere.Local") if c.get("ghost") else text


def calls_of(seq, path=()):
    for i, c in enumerate(seq):
        yield (*path, i), c
        for j, (_, act) in enumerate(c["acts"]):
            if act[0] == "nest":
                yield from calls_of([act[1]], (*path, i, j))


def make_docs(scn):
    out = []
    for i, seq in enumerate(scn["actors"]):
        for path, c in calls_of(seq, (i,)):
            if c["decode"]:
                out.append([list(path), make_doc(c)])
    return out


class Session:
    def __init__(self, scn, docs, counts, lens, faults):
        self.scn = scn
        self.docs = {tuple(p): d for p, d in docs}
        self.counts = counts and {tuple(p): n for p, n in counts}
        self.lens = lens and {tuple(p): n for p, n in lens}
        self.faults = faults
        self.sim = Sim(grain=scn["grain"], schedule=scn["schedule"] or {"mode": "seq"}, on_hook=self.on_hook, arm=bool(faults))
        if scn.get("max"):
            self.sim.max_steps = scn["max"]
        self.frames = {}
        self.res = {"viol": None, "calls": 0, "refs": 0, "fired": [], "outs": [], "overlap": 0}
        self.n = []
        self.steps = []
        self.active = 0

    def on_hook(self, sim, a, site, nid, n, obj):
        stack = self.frames.get(a.idx)
        if not stack:
            return
        f = stack[-1]
        i = f["n"]
        f["n"] += 1
        if ours(obj):
            note(f["refs"], obj)
        del obj
        for j, act in f["plan"].get(i, ()):
            if act[0] == "raise":
                self.res["fired"].append(act[1] + " in " + site)
                raise EXC[act[1]]("injected", site)
            if act[0] == "gc":
                self.res["fired"].append("collection in " + site)
                gc.collect()
            elif act[0] == "nest":
                self.res["fired"].append("nested call in " + site)
                self.one(act[1], (*f["path"], j, 0), a)

    def plan(self, c, path):
        out = {}
        n = self.counts.get(path) if self.counts else 0
        if n and self.faults:
            for j, (frac, act) in enumerate(c["acts"]):
                out.setdefault(min(n - 1, int(frac * n)), []).append((j, act))
        return out

    def one(self, c, path, a):
        """One call whose objects are then dropped; says what is left."""
        refs = []
        f = {"n": 0, "plan": self.plan(c, path), "refs": refs, "path": path}
        stack = self.frames.setdefault(a.idx, [])
        stack.append(f)
        nested = len(stack) > 1
        start = a.steps
        if self.faults and self.lens and c.get("int"):
            self.sim.interrupts[a.idx, start + 1 + int(c["int"][0] * self.lens[path])] = c["int"][1]
        self.res["overlap"] += self.active > 0 and not nested
        self.active += not nested
        try:
            for _ in range(1 + bool(c.get("repeat"))):
                kind = self.call(c, path, a, refs)
        finally:
            stack.pop()
            self.active -= not nested
        for i in [k for k in self.sim.interrupts if k[0] == a.idx]:
            del self.sim.interrupts[i]
        self.sim.raised.clear()
        self.n.append([path, f["n"]])
        self.steps.append([path, max(1, a.steps - start)])
        res = self.res
        res["calls"] += 1
        res["refs"] += len(refs)
        res["outs"].append([list(path), kind, f["n"]])
        names = left(refs)
        if names and not res["viol"]:
            res["viol"] = {"kind": "held", "detail": {
                "call": list(path), "outcome": kind, "options": c["o"], "objects still referred to": sorted(set(names)),
                "referred to by": holders(refs), "nested": nested}}  # fmt: skip

    def call(self, c, path, a, refs):
        sim = self.sim
        sim.quiet(a, True)
        try:
            fn = self.prepare(c, path, refs)
        finally:
            sim.quiet(a, False)
        try:
            nested = len(self.frames[a.idx]) > 1
            if nested:
                value = fn()
            else:
                with ops.traced(sim, a):
                    value = fn()
        except ops.GIVE_UP:
            raise
        except BaseException as e:  # noqa: BLE001 - the outcome under test
            if sim.aborted:
                raise ops.GIVE_UP[0](sim.aborted) from None
            return type(e).__name__
        if c["decode"]:
            sim.quiet(a, True)
            try:
                refs.extend(reachable(value))
            finally:
                sim.quiet(a, False)
        return "ok"

    def prepare(self, c, path, refs):
        """The call as a function of nothing, with everything it is given."""
        o = dict(c["o"])
        if c.get("hctx"):
            o["handler_context"] = zoo.Canary(0)
            note(refs, o["handler_context"])
        kw = ops.dec_kwargs(o) if c["decode"] else ops.enc_kwargs(o)
        for k in ("fail_safe", "on_missing"):
            if callable(kw.get(k)):
                refs.append([k, weakref.ref(kw[k])])
        if c.get("ctx"):
            keep = ops.CTX_DEC if c["decode"] else ops.CTX_ENC
            ctx = (Unpickler if c["decode"] else Pickler)(**{k: v for k, v in kw.items() if k in keep})
            refs.append(["context", weakref.ref(ctx)])
            kw = {k: v for k, v in kw.items() if k not in keep}
            kw["context"] = ctx
        elif c.get("backend"):
            kw["backend"] = JSONBackend()
            refs.append(["backend", weakref.ref(kw["backend"])])
        if c["decode"]:
            doc = self.docs[path]
            if c.get("repeat") or c.get("hctx"):
                doc = zoo.Doc(doc)
                note(refs, doc)
            return lambda: jsonpickle.decode(doc, **kw)
        obj = graph.build(c["g"])
        refs.extend(reachable(obj))
        return lambda: jsonpickle.encode(obj, **kw)

    def run(self):
        def make(i):
            def body(a):
                for j, c in enumerate(self.scn["actors"][i]):
                    self.one(c, (i, j), a)
                    if self.res["viol"]:
                        return

            return body

        self.sim.run([make(i) for i in range(len(self.scn["actors"]))])
        res = self.res
        if self.sim.aborted and not res["viol"]:
            res["viol"] = {"kind": self.sim.aborted, "detail": "the calls do not terminate"}
        if not res["viol"]:
            # also what the calls made on the way and nobody else knows of
            gc.collect()
            names = [type(o).__name__ for o in gc.get_objects() if ours(o) and type(o).__module__ == zoo.__name__]
            names += marked()
            if names:
                res["viol"] = {"kind": "held", "detail": {"after all calls": sorted(set(names)), "number": len(names)}}
        res.update(steps=self.sim.step, switches=self.sim.switches, counts=[[list(p), n] for p, n in self.n],
                   lens=[[list(p), n] for p, n in self.steps])  # fmt: skip
        for x in self.sim.fired:
            res["fired"].append("interrupt " + x[0] if isinstance(x, (list, tuple)) else str(x))
        return res


def marked():
    """Containers of a document or of a result, known by their strings."""

    def has(o):
        return any(type(x) is str and x.startswith("mark:") for x in (o.values() if type(o) is dict else o))

    out = []
    for o in gc.get_objects():
        if type(o) in (list, dict, tuple):
            # the collector does not follow dicts of strings by themselves
            kids = [x for x in (o.values() if type(o) is dict else o) if type(x) is dict]
            if has(o) or any(map(has, kids)):
                out.append(type(o).__name__ + " with the caller's strings")
    return out


def session(scn, docs, counts, lens, faults):
    return Session(scn, docs, counts, lens, faults).run()


def fixed(scn, docs):
    """Counts of hook firings and lengths, call by call and without faults."""
    dry = dict(scn, schedule=None)
    first = proc.child(session, dry, docs, None, None, False)
    if first["steps"] > LONG:
        return None
    counts = first["counts"]
    # nested calls are measured where they happen
    for _ in range(3):
        if not any(act[0] == "nest" for seq in scn["actors"] for _, c in calls_of(seq) for _, act in c["acts"]):
            break
        got = proc.child(session, dry, docs, counts, None, True)
        known = {tuple(p) for p, _ in counts}
        new = [x for x in got["counts"] if tuple(x[0]) not in known]
        if not new:
            break
        counts = counts + new
    if scn["schedule"]:
        scn = dict(c01.resolve(scn, [first["steps"]]), max=limit(first["steps"]))
    return scn, counts, first["lens"]


def run(scn):
    docs = proc.child(make_docs, scn)
    f = fixed(scn, docs)
    if f is None:
        return {"viol": None, "stats": {"too_long": 1}, "sig": "", "nontrivial": False}
    full, counts, lens = f
    got = proc.child(session, full, docs, counts, lens, True)
    sw = got["switches"]
    stats = {"steps": got["steps"], "calls": got["calls"], "objects_followed": got["refs"], "calls_that_failed": sum(x[1] != "ok" for x in got["outs"])}
    for k in got["fired"]:
        stats["fault:" + k] = stats.get("fault:" + k, 0) + 1
    if sw:
        stats["fault:preemption"] = len(sw)
    return {
        "viol": got["viol"], "stats": stats, "sig": json.dumps([scn["actors"], got["outs"], got["fired"], sw]),
        "nontrivial": got["refs"] > 0, "sample": {"scenario": full},
    }  # fmt: skip


def explicit(scn):
    if not scn["schedule"]:
        return None
    docs = proc.child(make_docs, scn)
    full, counts, lens = fixed(scn, docs)
    got = proc.child(session, full, docs, counts, lens, True)
    return dict(scn, schedule={"mode": "explicit", "switches": got["switches"]})


def shrink(scn):
    if scn["schedule"]:
        yield from sh.actors(scn)
    else:
        for i in range(len(scn["actors"][0])):
            if len(scn["actors"][0]) > 1:
                yield dict(scn, actors=[scn["actors"][0][:i] + scn["actors"][0][i + 1 :]])
    for i, seq in enumerate(scn["actors"]):
        for j, c in enumerate(seq):

            def put(new, i=i, j=j, seq=seq):
                return dict(scn, actors=scn["actors"][:i] + [seq[:j] + [new] + seq[j + 1 :]] + scn["actors"][i + 1 :])

            for k in ("int", "ctx", "hctx", "backend", "repeat", "ghost"):
                if c.get(k):
                    yield put({x: v for x, v in c.items() if x != k})
            for a in range(len(c["acts"])):
                yield put(dict(c, acts=c["acts"][:a] + c["acts"][a + 1 :]))
            for g in sh.graphs({"graphs": [c["g"]]}):
                yield put(dict(c, g=g["graphs"][0]))
    yield from sh.op_opts(scn, "actors")
    yield from sh.switches(scn)
