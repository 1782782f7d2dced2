"""C12: missing classes follow the policy and recovery is immediate."""

import json
import warnings

import jsonpickle
from jsonpickle import errors
from jsonpickle.unpickler import Unpickler

from .. import ops, proc, world
from .. import shrink as sh
from ..faults import EXC
from ..sched import LONG, Sim, limit
from . import c01

FAIL = ["RuntimeError", "TypeError", "KeyError", "AttributeError", "ValueError", "ImportError"]
GIVEN = 1000  # generations from here on come from the classes argument
POLICIES = ["ignore", "ignore", "warn", "error", "func", "func", "method", "default", "IGNORE", "Warn", "ERROR"]


class Keep:
    """A class that is always there."""


Keep.__module__ = "vsim.props.c12"


def gen_doc(rng, pool):
    n = rng.choice([1, 2, 3, 5, 8, 12])
    share = rng.random() < 0.35
    if share:
        pool = [p for p in pool if p in world.FLAT] or ["vw.a.A"]
    nodes = []
    for i in range(n):
        r = rng.random()
        k = rng.choice(["list", "dict", "Keep"]) if (i == 0 and n > 1 and share) or r < 0.25 else rng.choice(pool)
        if not share and rng.random() < 0.06:
            nodes.append(["type", k if k in world.NAMES else pool[0], []])
        else:
            nodes.append(["obj", k, []])
        if i:
            up = [j for j in range(len(nodes) - 1) if nodes[j][0] == "obj" and (not share or nodes[j][1] not in world.NAMES)]
            if not up:
                nodes.pop()
                continue
            nodes[rng.choice(up)][2].append(len(nodes) - 1)
            if share and rng.random() < 0.5:
                nodes[rng.choice(up)][2].append(len(nodes) - 1)
    return {"nodes": nodes, "share": share}


def gen_event(rng, pool):
    name = rng.choice(pool)
    r = rng.random()
    if r < 0.45:
        mod = world.NAMES[name][0]
        if rng.random() < 0.15:
            mod = mod.split(".")[0]
        return ["down", mod, rng.choice(["gone", "gone", "broken", "none"])] if rng.random() < 0.5 else ["up", mod]
    return [rng.choice(["hide", "show", "swap", "swap"]), name]


def gen_classes(rng, pool, n):
    out = []
    for name in rng.sample(pool, min(len(pool), rng.choice([1, 1, 2]))):
        out.append([rng.choice(["full", "short", "cls", "key"]), name, n * 10 + len(out)])
    if all(c[0] == "cls" for c in out) and rng.random() < 0.5:
        return [rng.choice(["list", "tuple", "set"]), out]
    for c in out:
        if c[0] == "cls":
            c[0] = "key"
    return ["dict", out] if out[0][0] != "key" or len(out) > 1 or rng.random() < 0.5 else ["one", out[:1]]


def gen(rng):
    pool = rng.sample(sorted(world.NAMES), rng.randint(1, 5))
    docs = [gen_doc(rng, pool) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.25:
        return gen_conc(rng, pool, docs)
    seq = []
    contexts = [rng.choice(POLICIES) for _ in range(2)]
    for t in range(rng.choice([3, 5, 8, 12, 16])):
        if rng.random() < 0.45:
            seq.append({"op": "event", "e": gen_event(rng, pool)})
            continue
        op = {"op": "dec", "d": rng.randrange(len(docs)), "how": rng.choice(["module", "module", "module", "context", "restore"])}
        if op["how"] == "context":
            op["c"] = rng.randrange(2)
        else:
            op["p"] = rng.choice(POLICIES)
        if rng.random() < 0.2:
            op["classes"] = gen_classes(rng, pool, t + 100)
        if rng.random() < 0.3:
            # events made by the callback or a state hook, by number
            op["acts"] = [[rng.choice([0, 0, 1, 2]), gen_event(rng, pool)] for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.1:
            op["fail"] = [rng.choice([0, 0, 1, 3]), rng.choice(FAIL)]
        seq.append(op)
    return {"docs": docs, "ops": seq, "contexts": contexts}


def gen_conc(rng, pool, docs):
    actors = [[gen_event(rng, pool) for _ in range(rng.choice([1, 2, 4, 8]))]]
    for _ in range(rng.choice([1, 2, 2])):
        seq = []
        for t in range(rng.choice([1, 2, 3])):
            op = {"d": rng.randrange(len(docs)), "p": rng.choice(["ignore", "func", "method", "error"])}
            if rng.random() < 0.25:
                op["classes"] = gen_classes(rng, pool, 1000 * len(actors) + t + 100)
            seq.append(op)
        actors.append(seq)
    return {
        "docs": docs, "before": [gen_event(rng, pool) for _ in range(rng.choice([0, 1, 2, 3]))],
        "actors": actors, "grain": rng.choice(["line", "line", "op", "call"]), "schedule": c01.gen_schedule(rng),
    }  # fmt: skip


# -- documents ---------------------------------------------------------------


def load(name):
    mod, qual = world.NAMES[name]
    obj = __import__(mod, fromlist=["x"])
    for part in qual.split("."):
        obj = getattr(obj, part)
    return obj


def write(scn):
    """Texts of all documents, written while every class is there."""
    world.World()
    return [jsonpickle.encode(build(d, 1000 * (n + 1))) for n, d in enumerate(scn["docs"])]


def build(doc, base):
    nodes = doc["nodes"]
    objs, kids = [], []
    for i, (what, k, c) in enumerate(nodes):
        ks = []
        kids.append(ks)
        if what == "type":
            objs.append(load(k))
        elif k == "list":
            objs.append(ks)
        elif k == "dict":
            objs.append({})
        elif k == "Keep":
            o = Keep()
            o.nid = base + i
            o.kids = ks
            objs.append(o)
        else:
            flat = doc["share"]
            objs.append(world.fill(load(k).__new__(load(k)), base + i, None if flat else ks))
    for i, (what, k, c) in enumerate(nodes):
        if what == "obj" and k == "dict":
            objs[i].update(("k%d" % n, objs[j]) for n, j in enumerate(c))
        else:
            kids[i].extend(objs[j] for j in c)
    return objs[0]


def raws(text):
    """nid -> the stored form of that object."""
    out = {}

    def walk(d):
        if isinstance(d, list):
            for x in d:
                walk(x)
        elif isinstance(d, dict):
            s = d.get("py/state") if isinstance(d.get("py/state"), dict) else d
            if "py/object" in d and isinstance(s.get("nid"), int):
                out[s["nid"]] = d
            for x in d.values():
                walk(x)

    walk(json.loads(text))
    return out


def given(spec):
    """What the classes argument provides: (exact names, short names)."""
    full, short = {}, {}
    for how, name, gen in spec[1] if spec else ():
        if how == "short":
            short[name.rsplit(".", 1)[-1]] = gen
        else:
            full[name] = gen
    return full, short


def make_given(spec):
    made = [(how, name, world.make_class(*world.NAMES[name], gen)) for how, name, gen in spec[1]]
    if spec[0] == "one":
        return made[0][2]
    if spec[0] != "dict":
        return {"list": list, "tuple": tuple, "set": set}[spec[0]](c for _, _, c in made)
    out = {}
    for how, name, c in made:
        out[c if how == "key" else name.rsplit(".", 1)[-1] if how == "short" else name] = c
    return out


# -- the model ---------------------------------------------------------------


class Stop(Exception):
    pass


def policy_of(p):
    return "ignore" if p == "default" else p.lower()


def expect(doc, state, op, policy):
    """Walks the document as the reader does.

    Gives node -> ("gen", n) | ("raw",), the missing names in order, and how
    the call ends (None, "ClassNotFoundError" or the failure's name).
    """
    full, short = given(op.get("classes"))
    acts = {}
    for n, ev in op.get("acts", ()):
        acts.setdefault(n, []).append(ev)
    out = {"nodes": {}, "missing": [], "end": None, "acts": 0}
    seq = [0]

    def step(called):
        n = seq[0]
        seq[0] += 1
        for ev in acts.get(n, ()):
            state.apply(ev)
            out["acts"] += 1
        if op.get("fail") and op["fail"][0] == n:
            out["end"] = op["fail"][1]
            raise Stop

    def visit(i):
        what, k, kids = doc["nodes"][i]
        if i in out["nodes"]:
            return
        if what == "type":
            gen = full.get(k, short.get(k.rsplit(".", 1)[-1], state.found(k)))
            out["nodes"][i] = ["gen", gen] if gen is not None else ["any"]
            return
        if k in world.NAMES:
            gen = full.get(k, short.get(k.rsplit(".", 1)[-1], state.found(k)))
            if gen is None:
                out["nodes"][i] = ["raw"]
                out["missing"].append(k)
                if policy == "error":
                    out["end"] = "ClassNotFoundError"
                    raise Stop
                if policy in ("func", "method"):
                    step(k)
                return
            out["nodes"][i] = ["gen", gen]
        else:
            out["nodes"][i] = ["here"]
        for j in kids:
            visit(j)
        if k in world.NAMES and world.kind(k) == "state":
            step(k)

    try:
        visit(0)
    except Stop:
        pass
    return out


def check_value(doc, want, value, base, frag):
    """First difference between the restored value and the expectation."""
    got = {}

    def visit(i, v):
        what, k, kids = doc["nodes"][i]
        w = want["nodes"][i]
        if i in got:
            if k in world.NAMES or doc["share"]:
                if what == "obj" and v is not got[i]:
                    return f"object {i} ({k}) is not shared any more"
            return None
        got[i] = v
        if w[0] == "any":
            return None
        if what == "type":
            if getattr(v, "gen", None) != w[1]:
                return f"class {k}: generation {getattr(v, 'gen', None)}, expected {w[1]}"
            return None
        if w[0] == "raw":
            if type(v) is not dict or v != frag[base + i]:
                return f"object {i} ({k}) should have stayed raw data, got {type(v).__name__}"
            return None
        if w[0] == "gen":
            name = f"{type(v).__module__}.{type(v).__qualname__}"
            if getattr(type(v), "gen", None) != w[1] or (name != k and w[1] < GIVEN):
                return f"object {i} ({k}): {type(v).__name__} of generation {getattr(type(v), 'gen', None)}, expected {w[1]}"
            if world.field(v, "nid") != base + i:
                return f"object {i} ({k}): wrong contents"
            ks = world.field(v, "kids")
        elif k == "Keep":
            if type(v) is not Keep or v.nid != base + i:
                return f"object {i} is not a Keep"
            ks = v.kids
        elif k == "list":
            ks = v
        else:
            if type(v) is not dict or list(v) != ["k%d" % n for n in range(len(kids))]:
                return f"object {i} is not the dict that was stored"
            ks = list(v.values())
        if not kids:
            return None
        if type(ks) is not list or len(ks) != len(kids):
            return f"object {i} ({k}): wrong children"
        for j, x in zip(kids, ks):
            bad = visit(j, x)
            if bad:
                return bad
        return None

    return visit(0, value)


# -- execution ---------------------------------------------------------------


class Callback:
    """The on_missing callback as a function and as a method."""

    def __init__(self, hook):
        self.names = []
        self.hook = hook

    def method(self, name):
        self.names.append(name)
        self.hook(name)

    def option(self, p):
        if p == "method":
            return self.method
        if p == "func":
            return lambda name: self.method(name)
        return p


def reader(op, cb, unpicklers, text):
    kw = {}
    if op.get("classes"):
        kw["classes"] = make_given(op["classes"])
    if op["how"] == "context":
        return jsonpickle.decode(text, context=unpicklers[op["c"]], **kw)
    if op["how"] == "restore":
        p = op["p"].lower()
        u = Unpickler() if p == "default" else Unpickler(on_missing=cb.option(p))
        return u.restore(json.loads(text), **kw)
    if op["p"] != "default":
        kw["on_missing"] = cb.option(op["p"])
    return jsonpickle.decode(text, **kw)


def outcome(fn, *args):
    try:
        return ["ok", fn(*args)]
    except ops.GIVE_UP:
        raise
    except BaseException as e:  # noqa: BLE001 - the outcome under test
        return ["exc", e]


def judge_end(want, out, raised):
    if want["end"] is None:
        return f"unexpected {type(out[1]).__name__}: {out[1]}" if out[0] == "exc" else None
    if out[0] == "ok":
        return f"expected {want['end']}, the call returned"
    if want["end"] == "ClassNotFoundError":
        if not isinstance(out[1], errors.ClassNotFoundError):
            return f"expected ClassNotFoundError, got {type(out[1]).__name__}"
    elif out[1] not in raised:
        return f"expected the callback's {want['end']}, got {type(out[1]).__name__}"
    return None


def history(scn, texts):
    w = world.World()
    res = {"viol": None, "calls": 0, "events": 0, "missing": 0, "found": 0, "fired": [], "trace": []}
    plan = {}

    def hook(name):
        n = plan["n"]
        plan["n"] += 1
        for ev in plan["acts"].get(n, ()):
            res["fired"].append(f"module or class {ev[0]} in a hook")
            w.apply(ev)
        if plan["fail"] and plan["fail"][0] == n:
            exc = EXC[plan["fail"][1]]("injected", name)
            plan["raised"].append(exc)
            res["fired"].append(plan["fail"][1] + " in hook")
            raise exc

    cb = Callback(hook)
    sim = Sim(grain="hook", on_hook=lambda sim, a, site, nid, n, obj: hook(site))
    unpicklers = [Unpickler(on_missing=cb.option(p.lower() if p != "default" else "ignore")) for p in scn["contexts"]]

    def body(a):
        for t, op in enumerate(scn["ops"]):
            if op["op"] == "event":
                w.apply(op["e"])
                res["events"] += 1
                k = f"fault:module or class {op['e'][0]}"
                res[k] = res.get(k, 0) + 1
                continue
            doc, base = scn["docs"][op["d"]], 1000 * (op["d"] + 1)
            text = texts[op["d"]]
            p = scn["contexts"][op["c"]] if op["how"] == "context" else op["p"]
            policy = policy_of(p)
            want = expect(doc, w.state.copy(), op, policy)
            acts = {}
            for n, ev in op.get("acts", ()):
                acts.setdefault(n, []).append(ev)
            plan.clear()
            plan.update(n=0, acts=acts, fail=op.get("fail"), raised=[])
            cb.names = []
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                out = outcome(reader, op, cb, unpicklers, text)
            res["calls"] += 1
            res["missing"] += len(want["missing"])
            res["found"] += sum(x[0] == "gen" for x in want["nodes"].values())
            res["trace"].append([want["end"], want["missing"]])
            bad = judge_end(want, out, plan["raised"])
            if not bad and policy in ("func", "method") and cb.names != want["missing"]:
                bad = f"the callback got {cb.names}, expected {want['missing']}"
            warned = [str(c.message) for c in caught if "could not find" in str(c.message)]
            if not bad and policy == "warn":
                if len(warned) != len(want["missing"]) or not all(n in m for n, m in zip(want["missing"], warned)):
                    bad = f"warnings {warned}, expected one for each of {want['missing']}"
            elif not bad and warned:
                bad = f"warnings {warned} under policy {policy}"
            if not bad and out[0] == "ok":
                bad = check_value(doc, want, out[1], base, raws(text))
            if bad:
                res["viol"] = {"kind": "missing class", "detail": {"op": t, "call": op, "policy": policy, "problem": bad, "text": text[:600]}}
                return

    sim.run([body])
    res["steps"] = sim.step
    return res


def concurrent(scn, texts):
    w = world.World()
    for ev in scn["before"]:
        w.apply(ev)
    res = {"viol": None, "calls": 0, "events": 0, "overlap": 0, "missing": 0, "found": 0}
    sim = Sim(grain=scn["grain"], schedule=scn["schedule"])
    if scn.get("max"):
        sim.max_steps = scn["max"]
    states = [w.state.copy()]
    frags = [raws(t) for t in texts]

    def changer(a):
        for ev in scn["actors"][0]:
            sim.yield_point("hook")
            w.apply(ev)
            states.append(w.state.copy())
            res["events"] += 1
        sim.yield_point("hook")

    def caller(a, seq):
        for op in seq:
            lo = len(states) - 1
            doc, base = scn["docs"][op["d"]], 1000 * (op["d"] + 1)
            cb = Callback(lambda name: None)
            kw = {"classes": make_given(op["classes"])} if op.get("classes") else {}
            try:
                with ops.traced(sim, a):
                    out = ["ok", jsonpickle.decode(texts[op["d"]], on_missing=cb.option(op["p"]), **kw)]
            except ops.GIVE_UP:
                raise
            except BaseException as e:  # noqa: BLE001 - the outcome under test
                if sim.aborted:
                    raise ops.GIVE_UP[0](sim.aborted) from None
                out = ["exc", e]
            hi = len(states) - 1
            res["calls"] += 1
            res["overlap"] += hi > lo
            bad = window(doc, states[lo : hi + 1], op, out, cb, base, frags[op["d"]])
            if bad and not res["viol"]:
                res["viol"] = {"kind": "during change", "detail": {"call": op, "problem": bad, "states": hi - lo + 1}}

    def make(seq):
        return lambda a: caller(a, seq)

    sim.run([changer] + [make(seq) for seq in scn["actors"][1:]])
    if sim.aborted and not res["viol"]:
        res["viol"] = {"kind": sim.aborted, "detail": "the calls do not terminate"}
    res.update(steps=sim.step, switches=sim.switches)
    return res


def window(doc, states, op, out, cb, base, frag):
    """A call that overlapped events: each lookup sees some state of its window."""
    if len(states) == 1:
        want = expect(doc, states[0].copy(), op, policy_of(op["p"]))
        bad = judge_end(want, out, [])
        if not bad and op["p"] in ("func", "method") and cb.names != want["missing"]:
            bad = f"the callback got {cb.names}, expected {want['missing']}"
        if not bad and out[0] == "ok":
            bad = check_value(doc, want, out[1], base, frag)
        return bad
    full, short = given(op.get("classes"))

    def gens(k):
        g = full.get(k, short.get(k.rsplit(".", 1)[-1]))
        return {g} if g is not None else {s.found(k) for s in states}

    if out[0] == "exc":
        ks = {k for what, k, _ in doc["nodes"] if what == "obj" and k in world.NAMES}
        if op["p"] == "error" and isinstance(out[1], errors.ClassNotFoundError) and any(None in gens(k) for k in ks):
            return None
        return f"unexpected {type(out[1]).__name__}: {out[1]}"
    raw = []

    def visit(i, v):
        what, k, kids = doc["nodes"][i]
        if what == "type":
            return None
        if k not in world.NAMES:
            ks = v.kids if type(v) is Keep else list(v.values()) if type(v) is dict else v
        else:
            g = gens(k)
            if type(v) is dict:
                if None not in g:
                    return f"object {i} ({k}) stayed raw data although its class was there"
                raw.append(k)
                return None
            if getattr(type(v), "gen", None) not in g:
                return f"object {i} ({k}): generation {getattr(type(v), 'gen', None)} was not there"
            ks = world.field(v, "kids") or []
        for j, x in zip(kids, ks):
            bad = visit(j, x)
            if bad:
                return bad
        return None

    bad = visit(0, out[1])
    if not bad and not doc["share"] and op["p"] in ("func", "method") and cb.names != raw:
        bad = f"the callback got {cb.names}, the value has {raw}"
    return bad


def measure(scn, texts):
    return concurrent(dict(scn, schedule={"mode": "seq"}), texts)["steps"]


def fixed(scn, texts):
    n = proc.child(measure, scn, texts)
    if n > LONG:
        return None
    return dict(c01.resolve(scn, [n]), max=limit(n))


def run(scn):
    texts = proc.child(write, scn)
    sw = []
    if "ops" in scn:
        got = proc.child(history, scn, texts)
        body = [scn["docs"], scn["ops"], scn["contexts"], got["trace"]]
        nontrivial = got["missing"] > 0
    else:
        scn = fixed(scn, texts)
        if scn is None:
            return {"viol": None, "stats": {"too_long": 1}, "sig": "", "nontrivial": False}
        got = proc.child(concurrent, scn, texts)
        sw = got["switches"]
        body = [scn["docs"], scn["before"], scn["actors"], sw]
        nontrivial = got["overlap"] > 0
    stats = {
        "steps": got["steps"], "calls": got["calls"], "objects_with_missing_class": got["missing"],
        "objects_with_found_class": got["found"], "calls_overlapping_an_event": got.get("overlap", 0),
        "concurrent_runs": "ops" not in scn,
    }  # fmt: skip
    stats.update({k: v for k, v in got.items() if k.startswith("fault:")})
    for k in got.get("fired", ()):
        stats["fault:" + k] = stats.get("fault:" + k, 0) + 1
    if "ops" not in scn:
        stats["fault:module or class event in another thread"] = got["events"]
    if sw:
        stats["fault:preemption"] = len(sw)
    return {"viol": got["viol"], "stats": stats, "sig": json.dumps(body), "nontrivial": nontrivial, "sample": {"scenario": scn}}


def explicit(scn):
    if "ops" in scn:
        return None
    texts = proc.child(write, scn)
    got = proc.child(concurrent, fixed(scn, texts), texts)
    return dict(scn, schedule={"mode": "explicit", "switches": got["switches"]})


def _smaller(d):
    for i in range(len(d["nodes"]) - 1, 0, -1):
        if not d["nodes"][i][2]:
            yield dict(d, nodes=[[w, k, [j - (j > i) for j in c if j != i]] for n, (w, k, c) in enumerate(d["nodes"]) if n != i])


def shrink(scn):
    if "ops" in scn:
        yield from sh.listkey(scn, "ops")
        for i, op in enumerate(scn["ops"]):
            for x in ("acts", "fail", "classes"):
                if x in op:
                    yield dict(scn, ops=[*scn["ops"][:i], {k: v for k, v in op.items() if k != x}, *scn["ops"][i + 1 :]])
    else:
        yield from sh.listkey(scn, "before")
        for i, seq in enumerate(scn["actors"]):
            for j in range(len(seq)):
                if len(seq) > 1:
                    yield dict(scn, actors=scn["actors"][:i] + [seq[:j] + seq[j + 1 :]] + scn["actors"][i + 1 :])
        yield from sh.switches(scn)
    for i, d in enumerate(scn["docs"]):
        for s in _smaller(d):
            yield dict(scn, docs=scn["docs"][:i] + [s] + scn["docs"][i + 1 :])
