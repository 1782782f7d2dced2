"""C11: handler registrations take effect and are undone exactly.

Histories of registrations, unregistrations and calls are judged by a model of
the registry; schedules run calls against unrelated registrations.
"""

import json

import jsonpickle
from jsonpickle import handlers
from jsonpickle.pickler import Pickler
from jsonpickle.unpickler import Unpickler

from .. import ops, proc, regzoo
from .. import shrink as sh
from ..faults import EXC
from ..sched import LONG, Sim, limit
from . import c01

REG = [k for k in regzoo.CLASSES if k not in regzoo.OTHERS]
FAIL = ["RuntimeError", "TypeError", "KeyError", "AttributeError", "ValueError", "ImportError"]
EXT_KINDS = [
    "np_arr", "np_big", "np_view", "np_scalar", "np_dtype", "np_dt", "np_struct", "np_ufunc", "np_matrix", "np_dt64",
    "pd_df", "pd_series", "pd_index", "pd_ts", "pd_multi", "pd_period", "pd_interval", "pd_pindex", "gm_z",
]  # fmt: skip


def gen_tree(rng, pool=None):
    n = rng.choice([1, 1, 2, 3, 4, 6, 8])
    share = rng.random() < 0.3
    pool = pool or rng.sample(REG, rng.randint(1, 6))
    if share:
        pool = [k for k in pool if k in regzoo.SIMPLE] or ["R0"]
    nodes = []
    for i in range(n):
        k = rng.choice(pool)
        if k in regzoo.LEAVES and i == 0 and n > 1:
            k = "R0"
        nodes.append([k, []])
        if i:
            up = [j for j in range(i) if nodes[j][0] not in regzoo.LEAVES]
            nodes[rng.choice(up)][1].append(i)
            if share and rng.random() < 0.5:
                nodes[rng.choice(up)][1].append(i)
    return {"nodes": nodes, "share": share}


def gen_change(rng, pool, flags):
    k = rng.choice(pool)
    if rng.random() < 0.62:
        # whether a class is registered with base is fixed for the history
        base = flags.setdefault(k, rng.random() < 0.5)
        return {"op": "reg", "k": k, "h": rng.randrange(regzoo.NHANDLERS), "how": rng.choice(regzoo.KINDS), "base": base}
    if rng.random() < 0.08:
        return {"op": "badreg", "k": k, "h": rng.randrange(regzoo.NHANDLERS)}
    return {"op": "unreg", "k": k}


def gen_ext(rng):
    x = rng.choice(["numpy", "numpy", "pandas", "gmpy"])
    return {"op": "ext", "x": x, "on": rng.random() < 0.55, "cfg": rng.choice([0, 0, 1, 2])}


def gen_extcall(rng):
    return {"op": "extcall", "v": [[rng.choice(EXT_KINDS), rng.randrange(1000)] for _ in range(rng.randint(1, 3))]}


def gen(rng):
    pool = rng.sample(REG, rng.randint(2, 7))
    flags = {}
    if rng.random() < 0.35:
        return gen_conc(rng, pool, flags)
    seq = []
    ext = rng.random() < 0.25
    docs = 0
    for _ in range(rng.choice([3, 5, 8, 12, 18])):
        r = rng.random()
        if ext and r < 0.35:
            seq.append(gen_ext(rng) if rng.random() < 0.5 else gen_extcall(rng))
        elif r < 0.55:
            seq.append(gen_change(rng, pool, flags))
        else:
            op = {"op": "enc", "g": gen_tree(rng, pool), "ctx": rng.random() < 0.3}
            if docs and rng.random() < 0.45:
                op = {"op": "dec", "d": rng.randrange(docs), "ctx": op["ctx"]}
            else:
                docs += 1
                if not op["g"]["share"] and rng.random() < 0.15:
                    op["unp"] = False
            if rng.random() < 0.25:
                op["acts"] = [[rng.random(), gen_change(rng, pool, flags)] for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.12:
                op["fail"] = [rng.random(), rng.choice(FAIL)]
            seq.append(op)
    return {"ops": seq}


def gen_conc(rng, pool, flags):
    before = [gen_change(rng, pool, flags) for _ in range(rng.choice([1, 2, 4, 6]))]
    before = [c for c in before if c["op"] != "badreg"]
    related = {*pool, "R0"}
    for k in pool:
        related.update(c for c in REG if issubclass(regzoo.CLASSES[k], regzoo.CLASSES[c]) or regzoo.NAMES[c] == regzoo.NAMES[k])
    others = [k for k in REG if k not in related] + list(regzoo.OTHERS)
    oflags = {}
    actors = []
    for _ in range(rng.choice([1, 1, 2])):
        seq = []
        for _ in range(rng.choice([2, 4, 8, 16])):
            r = rng.random()
            if r < 0.12:
                seq.append(gen_ext(rng))
            elif r < 0.4:  # another handler in place of the present one
                seq.append({"op": "swap", "n": rng.randrange(8), "h": rng.randrange(regzoo.NHANDLERS), "how": rng.choice(regzoo.KINDS)})
            else:
                seq.append(gen_change(rng, others, oflags))
        actors.append(seq)
    for _ in range(rng.choice([1, 2])):
        actors.append([{"op": rng.choice(["enc", "dec"]), "g": gen_tree(rng, pool)} for _ in range(rng.choice([1, 2, 3]))])
    return {"before": before, "actors": actors, "grain": rng.choice(["line", "line", "op", "call"]), "schedule": c01.gen_schedule(rng)}


# -- the model ---------------------------------------------------------------


class Model:
    def __init__(self):
        self.exact = {"UUID": "builtin"}
        self.name = {regzoo.NAMES["UUID"]: "builtin"}
        self.base = {}
        self.ext = {"numpy": None, "pandas": None, "gmpy": None}

    def change(self, c):
        k = c["k"]
        if c["op"] == "reg":
            h = regzoo.hid(c["h"], c["how"])
            self.exact[k] = self.name[regzoo.NAMES[k]] = h
            if c["base"]:
                self.base[k] = h
        elif c["op"] == "unreg":
            self.exact.pop(k, None)
            self.name.pop(regzoo.NAMES[k], None)
            self.base.pop(k, None)

    def extend(self, c):
        x, on = c["x"], ["cfg", c["cfg"]] if c["on"] else None
        if x == "pandas":
            self.ext["pandas"] = c["on"] or None
            self.ext["numpy"] = ["cfg", 0] if c["on"] else None
        elif x == "numpy":
            self.ext["numpy"] = on
        else:
            self.ext["gmpy"] = c["on"] or None

    def lookup(self, k, read=False):
        """The handlers that may be used for a class (None: no handler)."""
        name = regzoo.NAMES[k]
        k = regzoo.READ[k] if read else k
        if k in self.exact:
            return {self.exact[k]}
        out = {self.name[name]} if name in self.name else set()
        if k is not None:
            cls = regzoo.CLASSES[k]
            out |= {h for b, h in self.base.items() if issubclass(cls, regzoo.CLASSES[b])}
        return out or {None}


class Stop(Exception):
    pass


# -- execution ---------------------------------------------------------------


def build(g, base):
    nodes = g["nodes"]
    objs = [None] * len(nodes)
    kids = [[] for _ in nodes]
    for i, (k, _) in enumerate(nodes):
        objs[i] = regzoo.make(k, base + i, kids[i])
    for i, (_, c) in enumerate(nodes):
        kids[i].extend(objs[j] for j in c)
    return objs[0]


def change(c):
    if c["op"] == "reg":
        regzoo.register(regzoo.CLASSES[c["k"]], c["h"], c["how"], c["base"])
    elif c["op"] == "unreg":
        handlers.unregister(regzoo.CLASSES[c["k"]])
    else:
        try:
            handlers.register(c["k"], regzoo.HCLS[c["h"]])
        except TypeError:
            pass


def extend(c):
    import bz2
    import zlib

    from jsonpickle.ext import gmpy as jg
    from jsonpickle.ext import numpy as jn
    from jsonpickle.ext import pandas as jp

    mod = {"numpy": jn, "pandas": jp, "gmpy": jg}[c["x"]]
    if not c["on"]:
        mod.unregister_handlers()
    elif c["x"] == "numpy":
        kw = [{}, {"ndarray_size_threshold": 2, "ndarray_compression": bz2}, {"ndarray_size_threshold": None, "ndarray_compression": zlib}]
        mod.register_handlers(**kw[c["cfg"]])
    else:
        mod.register_handlers()


def ext_value(k, n):
    from .. import heavy

    np, pd = heavy.np, heavy.pd
    if k == "np_ufunc":
        return [np.add, np.sin, np.minimum][n % 3]
    if k == "np_matrix":
        return np.matrix([[1, n % 9], [3, 4]])
    if k == "np_dt64":
        return np.datetime64("2020-01-01") + n % 300
    if k == "pd_pindex":
        return pd.period_range("2020-01", periods=2 + n % 3, freq="M")
    return heavy.make_leaf(k, n)


def ext_outcome(v):
    out = []
    for k, n in v:
        try:
            text = jsonpickle.encode(ext_value(k, n))
            out.append(["ok", ops.norm(text)])
        except Exception as e:  # noqa: BLE001 - the outcome under test
            out.append(ops.exc_outcome(e))
            continue
        try:
            out.append(["ok", ops.norm(repr(jsonpickle.decode(text)))])
        except Exception as e:  # noqa: BLE001
            out.append(ops.exc_outcome(e))
    return out


def ext_reference(state, v):
    """The same in a process that only ever registered what is needed."""
    np_state, pd_state, gm_state = state
    if pd_state:
        extend({"x": "pandas", "on": True, "cfg": 0})
    if np_state:
        extend({"x": "numpy", "on": True, "cfg": np_state[1]})
    elif pd_state:
        extend({"x": "numpy", "on": False, "cfg": 0})
    if gm_state:
        extend({"x": "gmpy", "on": True, "cfg": 0})
    return ext_outcome(v)


def doc_marks(doc, base, n):
    """nid -> who wrote it, for every object found in a document."""
    out = {}

    def walk(d):
        if isinstance(d, list):
            for x in d:
                walk(x)
        elif isinstance(d, dict):
            s = d.get("py/state") if isinstance(d.get("py/state"), dict) else d
            if "hex" in s:
                out[int(s["hex"], 16)] = "builtin"
            elif isinstance(s.get("nid"), int):
                out[s["nid"]] = s.get("by")
            elif isinstance(s.get("int"), int):
                out[s["int"]] = None
            for x in d.values():
                walk(x)

    walk(doc)
    return out


def expect(m, g, read, at, fail, stop=True):
    """Walk the graph as a call does: nid offset -> acceptable handlers."""
    want = {}

    def visit(i):
        if i in want:
            return
        k, kids = g["nodes"][i]
        want[i] = m.lookup(k, read)
        if want[i] & {None, "builtin"}:
            if read and k == "Ghost":
                return
        else:
            for c in at.get(i, ()):
                m.change(c)
            if stop and fail == i:
                raise Stop
        for j in kids:
            visit(j)

    try:
        visit(0)
        return want, False
    except Stop:
        return want, True


class Session:
    def __init__(self, sim):
        self.sim = sim
        self.pickler = Pickler()
        self.unpickler = Unpickler()

    def encode(self, op, obj):
        if op.get("ctx") and op.get("unp", True):
            return jsonpickle.encode(obj, context=self.pickler)
        return jsonpickle.encode(obj, unpicklable=op.get("unp", True))

    def decode(self, op, text):
        if op.get("ctx"):
            return jsonpickle.decode(text, context=self.unpickler)
        return jsonpickle.decode(text)


def compare(g, base, want, fired, marks, read):
    """First disagreement between the model and what was seen."""
    for i, ok in want.items():
        nid = base + i
        seen = [h for h, n in fired if n == nid]
        if len(seen) > 1:
            return f"object {i} ({g['nodes'][i][0]}) was given to handlers {seen}"
        got = seen[0] if seen else None
        if got is None and marks is not None:
            if nid not in marks:
                return f"object {i} ({g['nodes'][i][0]}) is not in the document"
            got = marks[nid]
        allowed = {None if read and h == "builtin" else h for h in ok}
        if got not in allowed:
            return f"object {i} ({g['nodes'][i][0]}): handler {got}, expected {sorted(map(str, allowed))}"
        if marks is not None and got is not None and marks.get(nid) != got:
            return f"object {i}: handler {got} ran, the document has {marks.get(nid)}"
    return None


def history(scn, ext_refs):
    res = {"viol": None, "calls": 0, "changes": 0, "judged": 0, "fired": [], "ext": [], "trace": []}
    plan = {}

    def on_hook(sim, a, site, nid, n, obj):
        d, h = site.split(" ")
        log.append([h, nid])
        for c in plan.get("at", {}).get(nid, ()):
            res["fired"].append("registration in a hook" if c["op"] == "reg" else "unregistration in a hook")
            change(c)
        if plan.get("fail") == nid:
            res["fired"].append(plan["exc"] + " in handler")
            raise EXC[plan["exc"]]("injected", site)

    sim = Sim(grain="hook", on_hook=on_hook)
    s = Session(sim)
    m = Model()
    docs = []
    log = []

    def call(t, op):
        read = op["op"] == "dec"
        if read:
            if op["d"] >= len(docs) or docs[op["d"]] is None:
                return None
            g, base, text = docs[op["d"]]
        else:
            g, base, text = op["g"], 1000 * (t + 1), None
        n = len(g["nodes"])
        # reading these may fail without their handler, at an unknown place
        special = read and any(k in regzoo.LEAVES or k == "DSub" for k, _ in g["nodes"])
        at = {}
        for f, c in op.get("acts", ()) if not special else ():
            at.setdefault(int(f * n), []).append(c)
        fail = int(op["fail"][0] * n) if op.get("fail") and not special else None
        want, stopped = expect(m, g, read, at, fail)
        plan.clear()
        plan.update(at={base + i: list(c) for i, c in at.items()}, fail=None if fail is None else base + fail)
        plan["exc"] = op["fail"][1] if op.get("fail") else None
        log.clear()
        try:
            out = s.decode(op, text) if read else s.encode(op, build(g, base))
        except Exception as e:  # noqa: BLE001 - the outcome under test
            out = None
            if not stopped and not special:
                return {"problem": f"unexpected {type(e).__name__}: {e}"}
        finally:
            plan.clear()
        marks = None
        if not read:
            docs.append([g, base, out] if out is not None and op.get("unp", True) else None)
            if out is not None:
                marks = doc_marks(json.loads(out), base, n)
        res["trace"].append(sorted(log))
        if stopped or out is None:
            return None
        res["judged"] += 1
        bad = compare(g, base, want, log, marks, read)
        if bad:
            return {"problem": bad, "text": (text if read else out)[:600]}
        return None

    def body(a):
        for t, op in enumerate(scn["ops"]):
            k = op["op"]
            if k in ("reg", "unreg", "badreg"):
                change(op)
                m.change(op)
                res["changes"] += 1
            elif k == "ext":
                extend(op)
                m.extend(op)
                res["changes"] += 1
            elif k == "extcall":
                state = [m.ext["numpy"], m.ext["pandas"], m.ext["gmpy"]]
                got = ext_outcome(op["v"])
                res["calls"] += 1
                res["ext"].append([state, op["v"]])
                if ext_refs is not None:
                    ref = ext_refs[len(res["ext"]) - 1]
                    res["judged"] += 1
                    if got != ref:
                        res["viol"] = {"kind": "extension", "detail": {"op": t, "state": state, "values": op["v"], "expected": ref, "got": got}}
                        return
            else:
                res["calls"] += 1
                bad = call(t, op)
                if bad:
                    res["viol"] = {"kind": "handler", "detail": {"op": t, "call": op, **bad}}
                    return

    sim.run([body])
    res["steps"] = sim.step
    return res


def states_of(scn):
    """The extension states at the extension calls, from the model alone."""
    m = Model()
    out = []
    for op in scn["ops"]:
        if op["op"] == "ext":
            m.extend(op)
        elif op["op"] == "extcall":
            out.append([[m.ext["numpy"], m.ext["pandas"], m.ext["gmpy"]], op["v"]])
    return out


def concurrent(scn):
    res = {"viol": None, "calls": 0, "changes": 0, "judged": 0, "overlap": 0}
    logs = {}

    def on_hook(sim, a, site, nid, n, obj):
        logs.setdefault(a.idx, []).append([site.split(" ")[1], nid])

    sim = Sim(grain=scn["grain"], schedule=scn["schedule"], on_hook=on_hook)
    if scn.get("max"):
        sim.max_steps = scn["max"]
    m = Model()
    docs = {}
    base = 0
    for i, seq in enumerate(scn["actors"]):
        for j, op in enumerate(seq):
            if op["op"] == "dec":
                base += 1000
                docs[i, j] = [jsonpickle.encode(build(op["g"], base)), base]
    for c in scn["before"]:
        change(c)
        m.change(c)
    # handlers that swaps may put in the place of a registered one
    ks = sorted(m.exact)
    swaps = {}
    for seq in scn["actors"]:
        for op in seq:
            if op["op"] == "swap" and ks:
                swaps.setdefault(ks[op["n"] % len(ks)], set()).add(regzoo.hid(op["h"], op["how"]))

    def allowed(k, read):
        out = set(m.lookup(k, read))
        r = regzoo.READ[k] if read else k
        for s, hs in swaps.items():
            if s == r or regzoo.NAMES[s] == regzoo.NAMES[k]:
                out |= hs
            elif s in m.base and r is not None and issubclass(regzoo.CLASSES[r], regzoo.CLASSES[s]) and r not in m.exact:
                out |= hs
        return out

    running = [0]
    busy = [0]

    def changer(a, seq):
        for op in seq:
            res["overlap"] += bool(running[0])
            busy[0] += 1
            with ops.traced(sim, a):
                if op["op"] == "swap":
                    if ks:
                        k = ks[op["n"] % len(ks)]
                        change({"op": "reg", "k": k, "h": op["h"], "how": op["how"], "base": k in m.base})
                elif op["op"] == "ext":
                    extend(op)
                else:
                    change(op)
            busy[0] -= 1
            res["changes"] += 1

    def caller(a, i, seq):
        for j, op in enumerate(seq):
            read = op["op"] == "dec"
            g = op["g"]
            nb = docs[i, j][1] if read else 100000 * (i + 1) + 1000 * j
            obj = None if read else build(g, nb)
            logs[a.idx] = []
            running[0] += 1
            res["overlap"] += bool(busy[0])
            bad = out = None
            try:
                with ops.traced(sim, a):
                    out = jsonpickle.decode(docs[i, j][0]) if read else jsonpickle.encode(obj)
            except Exception as e:  # noqa: BLE001 - the outcome under test
                special = read and any(k in regzoo.LEAVES or k == "DSub" for k, _ in g["nodes"])
                if not special:
                    bad = f"unexpected {type(e).__name__}: {e}"
            running[0] -= 1
            res["calls"] += 1
            if out is not None and not bad:
                want = {}
                for n, (k, _) in enumerate(g["nodes"]):
                    want[n] = allowed(k, read)
                marks = None if read else doc_marks(json.loads(out), nb, len(g["nodes"]))
                res["judged"] += 1
                bad = compare(g, nb, want, logs[a.idx], marks, read)
            if bad and not res["viol"]:
                res["viol"] = {"kind": "during registration", "detail": {"call": op, "problem": bad}}

    def make(i, seq):
        if seq and seq[0]["op"] in ("enc", "dec"):
            return lambda a: caller(a, i, seq)
        return lambda a: changer(a, seq)

    sim.run([make(i, seq) for i, seq in enumerate(scn["actors"])])
    if sim.aborted and not res["viol"]:
        res["viol"] = {"kind": sim.aborted, "detail": "the calls do not terminate"}
    res.update(steps=sim.step, switches=sim.switches)
    return res


def measure(scn):
    return concurrent(dict(scn, schedule={"mode": "seq"}))["steps"]


def fixed(scn):
    n = proc.child(measure, scn)
    if n > LONG:
        return None
    return dict(c01.resolve(scn, [n]), max=limit(n))


def run(scn):
    sw = []
    if "ops" in scn:
        refs = []
        seen = {}
        for state, v in states_of(scn):
            key = json.dumps([state, v])
            if key not in seen:
                seen[key] = proc.child(ext_reference, state, v)
            refs.append(seen[key])
        got = proc.child(history, scn, refs)
        body = [scn["ops"], got["trace"], got["fired"]]
        nontrivial = got["judged"] > 0 and got["changes"] + len(got["fired"]) > 0
    else:
        scn = fixed(scn)
        if scn is None:
            return {"viol": None, "stats": {"too_long": 1}, "sig": "", "nontrivial": False}
        got = proc.child(concurrent, scn)
        sw = got["switches"]
        body = [scn["before"], scn["actors"], sw]
        nontrivial = got["overlap"] > 0
    stats = {
        "steps": got["steps"], "calls": got["calls"], "registry_changes": got["changes"], "calls_judged": got["judged"],
        "extension_calls": len(got.get("ext", ())), "changes_overlapping_a_call": got.get("overlap", 0),
        "concurrent_runs": "ops" not in scn,
    }  # fmt: skip
    for k in got.get("fired", ()):
        stats["fault:" + k] = stats.get("fault:" + k, 0) + 1
    if sw:
        stats["fault:preemption"] = len(sw)
    return {"viol": got["viol"], "stats": stats, "sig": json.dumps(body), "nontrivial": nontrivial, "sample": {"scenario": scn}}


def explicit(scn):
    if "ops" in scn:
        return None
    got = proc.child(concurrent, fixed(scn))
    return dict(scn, schedule={"mode": "explicit", "switches": got["switches"]})


def _smaller(g):
    """The tree without one of its leaves."""
    for i in range(len(g["nodes"]) - 1, 0, -1):
        if not g["nodes"][i][1]:
            nodes = [[k, [j - (j > i) for j in c if j != i]] for n, (k, c) in enumerate(g["nodes"]) if n != i]
            yield dict(g, nodes=nodes)


def shrink(scn):
    if "ops" in scn:
        for i, op in enumerate(scn["ops"]):
            # numbers of documents shift when an encode is removed
            rest = [dict(o, d=o["d"] - 1) if op["op"] == "enc" and o.get("d", 0) > sum(x["op"] == "enc" for x in scn["ops"][:i]) else o
                    for o in scn["ops"][i + 1 :]]  # fmt: skip
            yield dict(scn, ops=scn["ops"][:i] + rest)
        for i, op in enumerate(scn["ops"]):
            alt = [{k: v for k, v in op.items() if k != x} for x in ("acts", "fail", "unp") if x in op]
            if op.get("ctx"):
                alt.append(dict(op, ctx=False))
            if "g" in op:
                alt.extend(dict(op, g=g) for g in _smaller(op["g"]))
            if len(op.get("v", ())) > 1:
                alt.extend(dict(op, v=[v]) for v in op["v"])
            for a in alt:
                yield dict(scn, ops=scn["ops"][:i] + [a] + scn["ops"][i + 1 :])
        return
    yield from sh.listkey(scn, "before")
    for i, seq in enumerate(scn["actors"]):
        for j in range(len(seq)):
            if len(seq) > 1:
                yield dict(scn, actors=scn["actors"][:i] + [seq[:j] + seq[j + 1 :]] + scn["actors"][i + 1 :])
            if "g" in seq[j]:
                for g in _smaller(seq[j]["g"]):
                    new = seq[:j] + [dict(seq[j], g=g)] + seq[j + 1 :]
                    yield dict(scn, actors=scn["actors"][:i] + [new] + scn["actors"][i + 1 :])
    yield from sh.switches(scn)
