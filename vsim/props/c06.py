"""C06: backend selection, fallthrough and options follow the configuration."""

import copy
import json

from .. import bks, proc, zoo
from .. import shrink as sh
from ..sched import Sim
from . import c01

NAMES = list(bks.REAL) + list(bks.STUBS)
ABSENT = ["simbk_absent", "simpkg.absent", "simbk_a.absent"]
FAIL = ["ValueError", "TypeError", "Oops", "DecErr", "KeyError", "AttributeError", "KeyboardInterrupt", "MemoryError"]
OPTS = [
    [[], {}], [[], {"sort_keys": True}], [[], {"sort_keys": False}], [[], {"indent": 1}],
    [[], {"ensure_ascii": False}], [[], {"separators": [",", ":"]}], [[], {"indent": 2, "sort_keys": True}],
    [[], {"nonsense": 1}], [[], {"escape_forward_slashes": False}],
]  # fmt: skip
STUB_OPTS = [[[1], {}], [["x", 2], {"deep": [1]}], [[], {"deep": {"a": 1}}], [[], {"p": 1, "q": 2}]]
DOPTS = [[[], {}], [[], {"parse_int": None}], [[], {"strict": False}], [[], {"nonsense": 1}], [[], {"parse_float": None}]]
VALUES = ["int", "dict", "obj", "list", "keys", "str"]
TEXTS = ["1", '{"a": [1, 2]}', "[]", '"s"', '{"a": ', "", "nul", "[1, 2,]", '{"k": 1.5}', "1" * 30]


def value(kind):
    if kind == "int":
        return 5
    if kind == "dict":
        return {"b": 1, "a": [1, None], "c": {"x": 2.5}}
    if kind == "obj":
        o = zoo.Plain(3)
        o.kids = [zoo.Plain(4), "é"]
        return o
    if kind == "list":
        return [[], {}, "x", True]
    if kind == "keys":
        return {(1, 2): 1, 7: [2]}
    return "text"


def gen_opts(rng, name, dec=False):
    pool = DOPTS if dec else OPTS
    if name in bks.STUBS and rng.random() < 0.6:
        pool = STUB_OPTS
    return copy.deepcopy(rng.choice(pool))


def gen_change(rng, nbk, names, remove=True):
    b = rng.randrange(nbk)
    r = rng.random()
    name = rng.choice(names)
    if r < 0.25:
        f = rng.choice(sorted(bks.FUNCS)) if name in bks.STUBS else rng.choice(["plain", "plain", "nodumps", "noloads", "noexc"])
        if rng.random() < 0.1:
            name, f = rng.choice(ABSENT), "plain"
        return {"op": "load", "bk": b, "name": name, "f": f}
    if r < 0.35 and remove:
        return {"op": "remove", "bk": b, "name": name}
    if r < 0.6:
        return {"op": "prefer", "bk": b, "name": name}
    if r < 0.78:
        return {"op": "eopts", "bk": b, "name": name, "v": gen_opts(rng, name)}
    if r < 0.88:
        return {"op": "dopts", "bk": b, "name": name, "v": gen_opts(rng, name, True)}
    return {"op": "through", "bk": b, "v": rng.random() < 0.5}


def gen_call(rng, nbk):
    b = rng.randrange(nbk)
    if rng.random() < 0.6:
        op = {"op": "enc", "bk": b, "v": rng.choice(VALUES), "how": rng.choice(["encode", "dumps", "jp", "jp", "jpdumps"])}
        if op["v"] in ("keys", "obj"):
            op["how"] = "jp"
        if rng.random() < 0.3:
            op["indent"] = rng.choice([1, 2, 4])
        if rng.random() < 0.2:
            op["separators"] = rng.choice([[",", ":"], [", ", " : "]])
        return op
    return {"op": "dec", "bk": b, "t": rng.choice(TEXTS), "how": rng.choice(["decode", "loads", "jp", "jploads"])}


def gen(rng):
    nbk = rng.choice([1, 1, 2])
    names = rng.sample(NAMES, rng.randint(2, 5))
    script = {}
    pf = rng.choice([0, 0.1, 0.4, 0.7])
    for n in NAMES:
        script[n] = [rng.choice(FAIL) if rng.random() < pf else "ok" for _ in range(12)]
    scn = {"nbk": nbk, "script": script, "module": rng.random() < 0.4}
    if rng.random() < 0.55:
        hist = []
        for i in range(rng.randint(3, 25)):
            if rng.random() < 0.5:
                hist.append(gen_change(rng, nbk, names))
                if rng.random() < 0.04:  # down to nothing
                    for n in rng.sample(NAMES, len(NAMES)):
                        hist.append({"op": "remove", "bk": hist[-1]["bk"], "name": n})
            else:
                op = gen_call(rng, nbk)
                if rng.random() < 0.12:
                    op["int"] = [rng.random(), rng.choice(["kbd", "mem", "exit"])]
                hist.append(op)
        hist.append(gen_call(rng, nbk))
        scn["ops"] = hist
        return scn
    scn["nbk"] = nbk = 1
    scn["before"] = [gen_change(rng, nbk, names) for _ in range(rng.choice([0, 2, 5]))]
    scn["actors"] = [[gen_change(rng, nbk, names, remove=False) for _ in range(rng.randint(1, 6))]]
    for _ in range(rng.choice([1, 1, 2, 3])):
        scn["actors"].append([gen_call(rng, nbk) for _ in range(rng.randint(1, 4))])
    scn["grain"] = rng.choice(["line", "line", "op"])
    scn["schedule"] = c01.gen_schedule(rng)
    return scn


# -- the model ---------------------------------------------------------------


class Model:
    def __init__(self, probe):
        self.names = list(probe["order"])
        self.fns = {n: list(bks.FUNCS["plain"]) for n in self.names}
        self.eopts = {n: list(probe["eopts"][n]) for n in self.names}
        self.dopts = {n: list(probe["dopts"][n]) for n in self.names}
        self.ft = True

    def change(self, op):
        """Apply; returns the expected outcome."""
        k, name = op["op"], op.get("name")
        if k == "load":
            if name in ABSENT or op["f"] in bks.BROKEN:
                return ["ok", False]
            if name in bks.REAL and op["f"] not in ("plain",):
                return ["ok", False]
            self.fns[name] = list(bks.FUNCS[op["f"]])
            self.eopts.setdefault(name, [repr(()), repr([])])
            self.dopts.setdefault(name, [repr(()), repr([])])
            if name not in self.names:
                self.names.append(name)
            return ["ok", True]
        if k == "remove":
            for d in (self.fns, self.eopts, self.dopts):
                d.pop(name, None)
            if name in self.names:
                self.names.remove(name)
            return ["ok", None]
        if k == "prefer":
            if name not in self.names:
                return ["exc", "AssertionError"]
            self.names.remove(name)
            self.names.insert(0, name)
            return ["ok", None]
        if k in ("eopts", "dopts"):
            args, kw = opts(op["v"])
            getattr(self, k)[name] = [repr(tuple(args)), bks._kw(kw)]
            return ["ok", None]
        self.ft = op["v"]
        return ["ok", None]

    def expected_kw(self, name, op, plain=False):
        kw = self.eopts[name][1]
        if plain or not ("indent" in op or "separators" in op):
            return kw
        d = dict(eval(kw))  # noqa: S307 - our own repr of plain options
        for k in ("indent", "separators"):
            if k in op:
                d[k] = tuple(op[k]) if k == "separators" else op[k]
        return bks._kw(d)

    def judge(self, op, log, out):
        """The log of one call against this configuration."""
        pos = 0
        enc = op["op"] == "enc"
        if not self.names:
            if log:
                return "a backend was used although none is loaded"
            return None if out[:2] == ["exc", "AssertionError"] else f"no backend is loaded, yet {out[:2]}"
        many = op.get("v") == "keys"
        while True:
            first = pos
            tried = self.names if self.ft else self.names[:1]
            ended = None
            for i, name in enumerate(tried):
                if pos >= len(log):
                    return f"{name} was not tried"
                e = log[pos]
                pos += 1
                want = self.fns[name]
                if e["b"] != name:
                    return f"{e['b']} was used instead of {name}"
                if e["f"] != want[0 if enc else 1]:
                    return f"{name}.{e['f']} was used instead of {want[0 if enc else 1]}"
                args = (self.eopts if enc else self.dopts)[name][0]
                kws = {self.expected_kw(name, op)} if enc else {self.dopts[name][1]}
                if enc and many and (pos < len(log) or out[0] == "exc"):
                    kws.add(self.expected_kw(name, op, plain=True))
                if e["a"] != args or e["k"] not in kws:
                    return f"{name} got arguments {e['a']} {e['k']} instead of {args} {sorted(kws)}"
                if "exc" not in e:
                    ended = "ok"
                    break
                if not passes_on(e, enc, want) or i == len(tried) - 1:
                    ended = "exc"
                    break
            if ended == "exc":
                if pos != len(log):
                    return f"{log[pos]['b']} was used after the call had to fail"
                if out[0] != "exc" or not out[2]:
                    return f"the error of {log[pos - 1]['b']} did not reach the caller: {out[:2]}"
                return None
            if pos == len(log):
                break
            if not many:
                return f"{log[pos]['b']} was used after {log[first]['b']} had succeeded"
        if out[0] != "ok":
            return f"{log[-1]['b']} succeeded, yet {out[:2]}"
        if out[1] != log[-1]["value"]:
            return f"{log[-1]['b']} gave {log[-1]['value']!r}, the caller got {out[1]!r}"
        return None


def passes_on(e, enc, fns):
    """Does this failure make the next backend be tried?"""
    if enc:
        return "Exception" in e["mro"]
    exc = fns[2] if isinstance(fns[2], str) else fns[2].__name__
    return exc in e["mro"]


def opts(v):
    kw = dict(v[1])
    if "separators" in kw:
        kw["separators"] = tuple(kw["separators"])
    return v[0], kw


# -- execution ---------------------------------------------------------------


def probe():
    """Defaults of a fresh backend object, seen from the backends."""
    from jsonpickle.backend import JSONBackend

    out = {"eopts": {}, "dopts": {}}
    bks.reset({n: ["ValueError"] for n in bks.REAL})
    log = bks.start()
    try:
        JSONBackend().encode(1)
    except ValueError:
        pass
    out["order"] = [e["b"] for e in log]
    for n in bks.REAL:
        bks.reset()
        log = bks.start()
        bk = JSONBackend()
        bk.enable_fallthrough(False)
        bk.set_preferred_backend(n)
        bk.encode(1)
        bk.decode("1")
        out["eopts"][n] = [log[0]["a"], log[0]["k"]]
        out["dopts"][n] = [log[1]["a"], log[1]["k"]]
    return out


class World:
    def __init__(self, scn, pr):
        import jsonpickle
        from jsonpickle.backend import JSONBackend

        self.jp = jsonpickle
        self.scn = scn
        self.objs = [JSONBackend() for _ in range(scn["nbk"])]
        self.models = [Model(pr) for _ in self.objs]
        self.module = scn.get("module")

    def api(self, i, name):
        if i == 0 and self.module:
            return getattr(self.jp, name)
        return getattr(self.objs[i], name)

    def change(self, op):
        i, k, name = op["bk"], op["op"], op.get("name")
        try:
            if k == "load":
                d, ld, e = bks.FUNCS[op["f"]]
                r = self.api(i, "load_backend")(name, d, ld, e)
            elif k == "remove":
                r = self.api(i, "remove_backend")(name)
            elif k == "prefer":
                r = self.api(i, "set_preferred_backend")(name)
            elif k in ("eopts", "dopts"):
                args, kw = opts(op["v"])
                r = self.api(i, "set_encoder_options" if k == "eopts" else "set_decoder_options")(name, *args, **kw)
            else:
                r = self.api(i, "enable_fallthrough")(op["v"])
        except Exception as e:  # noqa: BLE001 - the outcome under test
            return ["exc", type(e).__name__]
        return ["ok", r]

    def call(self, op):
        i, how = op["bk"], op["how"]
        mod = i == 0 and self.module
        bk = self.jp.backend.json if mod else self.objs[i]
        kw = {k: (tuple(op[k]) if k == "separators" else op[k]) for k in ("indent", "separators") if k in op}
        if op["op"] == "enc":
            v = value(op["v"])
            if how in ("jp", "jpdumps"):
                f = self.jp.encode if how == "jp" else self.jp.dumps
                if not mod:
                    kw["backend"] = bk
                if op["v"] == "keys":
                    kw["keys"] = True
                return f(v, **kw)
            return (bk.encode if how == "encode" else bk.dumps)(v, **kw)
        if how in ("jp", "jploads"):
            f = self.jp.decode if how == "jp" else self.jp.loads
            return f(op["t"], **({} if mod else {"backend": bk}))
        return (bk.decode if how == "decode" else bk.loads)(op["t"])

    def outcome(self, op, sim, log):
        a = sim.me()
        sim.trace(a, True)
        try:
            try:
                v = self.call(op)
            finally:
                sim.trace(a, False)
        except Exception as e:  # noqa: BLE001
            return ["exc", type(e).__name__, bool(log) and log[-1].get("e") is e]
        except (KeyboardInterrupt, SystemExit) as e:
            return ["exc", type(e).__name__, bool(log) and log[-1].get("e") is e]
        return ["ok", v]


def strip(log):
    return [[e["b"], e["f"], e["a"], e["k"], e.get("exc", "ok")] for e in log]


def steps_of(scn, pr, upto):
    """Steps of operation number upto in this history, without interrupts."""
    return sequential(dict(scn, ops=[{k: v for k, v in o.items() if k != "int"} for o in scn["ops"]]), pr, None)["opsteps"]


def sequential(scn, pr, opsteps):
    bks.reset(scn["script"])
    w = World(scn, pr)
    sim = Sim(arm=bool(opsteps) and any("int" in op for op in scn["ops"]))
    res = {"viol": None, "calls": 0, "changes": 0, "backend_calls": 0, "trace": [], "opsteps": [], "faults": {}}

    def body(a):
        for n, op in enumerate(scn["ops"]):
            m = w.models[op["bk"]]
            before = a.steps
            if op["op"] not in ("enc", "dec"):
                got = w.change(op)
                want = m.change(op)
                res["changes"] += 1
                res["opsteps"].append(0)
                if got != want and not (want[0] == "ok" and want[1] is None and got[0] == "ok"):
                    res["viol"] = {"kind": "configuration", "detail": {"op": n, "what": op, "expected": want, "got": got}}
                    return
                continue
            sim.interrupts.clear()
            if op.get("int") and opsteps and opsteps[n]:
                at = a.steps + 1 + min(opsteps[n] - 1, int(op["int"][0] * opsteps[n]))
                sim.interrupts[a.idx, at] = op["int"][1]
            fired = len(sim.fired)
            log = bks.start()
            out = w.outcome(op, sim, log)
            res["opsteps"].append(a.steps - before)
            res["backend_calls"] += len(log)
            for e in log:
                if e.get("injected"):
                    k = f"{e['exc']} in backend"
                    res["faults"][k] = res["faults"].get(k, 0) + 1
            res["trace"].append(strip(log))
            if len(sim.fired) > fired:
                k = sim.fired[-1][0]
                res["faults"][k] = res["faults"].get(k, 0) + 1
                continue
            res["calls"] += 1
            bad = m.judge(op, log, out)
            if bad:
                res["viol"] = {"kind": "backend use", "detail": {"op": n, "call": op, "problem": bad, "log": strip(log)}}
                return

    sim.run([body])
    res["steps"] = sim.step
    return res


def window_judge(states, op, log, out):
    """A call that overlapped changes: any mix of the states of its window."""
    enc = op["op"] == "enc"
    if any(not s.names for s in states):
        return None
    if not log:
        return f"no backend was used: {out[:2]}"
    many = op.get("v") == "keys"
    for e in log:
        cand = [s for s in states if e["b"] in s.names]
        if not cand:
            return f"{e['b']} is not loaded"
        if not any(e["f"] == s.fns[e["b"]][0 if enc else 1] for s in cand):
            return f"{e['b']}.{e['f']} was never configured"
        ok = False
        for s in states:  # options may be set while the load is still going on
            o = (s.eopts if enc else s.dopts).get(e["b"])
            if o is None:
                continue
            kws = {s.expected_kw(e["b"], op)} if enc else {o[1]}
            if enc and many:
                kws.add(s.expected_kw(e["b"], op, plain=True))
            ok = ok or (e["a"] == o[0] and e["k"] in kws)
        if not ok:
            return f"{e['b']} got options it was never given: {e['a']} {e['k']}"
    last = log[-1]
    if out[0] == "ok":
        if "exc" in last:
            return f"the last backend failed, yet the caller got {out[1]!r}"
        if out[1] != last["value"]:
            return f"{last['b']} gave {last['value']!r}, the caller got {out[1]!r}"
    elif not out[2]:
        return f"the call failed with {out[1]} that no backend raised"
    if many:
        return None
    if not any(log[0]["b"] == s.names[0] for s in states):
        return f"{log[0]['b']} was tried first, it was never preferred"
    if any("exc" not in e for e in log[:-1]):
        return "another backend was used after one had succeeded"
    if not any(s.ft for s in states) and len(log) != 1:
        return "fallthrough is off, yet more than one backend was used"
    if all(s.ft for s in states) and out[0] == "exc":
        fns = [s.fns[last["b"]] for s in states if last["b"] in s.names]
        if all(passes_on(last, enc, f) for f in fns):
            used = {e["b"] for e in log}
            for n in states[0].names:
                if n not in used and all(n in s.names for s in states):
                    return f"{n} was not tried although {last['b']} failed"
    return None


def concurrent(scn, pr):
    bks.reset(scn["script"])
    w = World(scn, pr)
    m = w.models[0]
    sim = Sim(schedule=scn["schedule"], grain=scn["grain"])
    for op in scn["before"]:
        w.change(op)
        m.change(op)
    states = [copy.deepcopy(m)]
    done = [0]
    res = {"viol": None, "calls": 0, "changes": 0, "backend_calls": 0, "trace": [], "faults": {}, "overlap": 0}

    def changer(a):
        for op in scn["actors"][0]:
            want = m.change(op)
            states.append(copy.deepcopy(m))
            sim.trace(a, True)
            try:
                got = w.change(op)
            finally:
                sim.trace(a, False)
            done[0] = len(states) - 1
            res["changes"] += 1
            if got != want and not (want[0] == "ok" and want[1] is None and got[0] == "ok"):
                res["viol"] = {"kind": "configuration", "detail": {"what": op, "expected": want, "got": got}}

    def make(i):
        def body(a):
            for op in scn["actors"][i]:
                lo = done[0]
                log = bks.start()
                out = w.outcome(op, sim, log)
                hi = len(states) - 1
                res["calls"] += 1
                res["overlap"] += hi > lo
                res["backend_calls"] += len(log)
                res["trace"].append([i, strip(log)])
                for e in log:
                    if e.get("injected"):
                        k = f"{e['exc']} in backend"
                        res["faults"][k] = res["faults"].get(k, 0) + 1
                bad = window_judge(states[lo : hi + 1], op, log, out)
                if bad and not res["viol"]:
                    res["viol"] = {"kind": "during change", "detail": {"call": op, "problem": bad, "log": strip(log)}}

        return body

    sim.run([changer] + [make(i) for i in range(1, len(scn["actors"]))])
    if sim.aborted and not res["viol"]:
        res["viol"] = {"kind": sim.aborted, "detail": "the calls do not terminate"}
    res.update(steps=sim.step, switches=sim.switches)
    return res


def measure(scn, pr):
    """Length of the concurrent part when run one after the other."""
    return concurrent(dict(scn, schedule={"mode": "seq"}), pr)["steps"]


_probe = []


def defaults():
    if not _probe:
        _probe.append(proc.child(probe))
    return _probe[0]


def run(scn):
    pr = defaults()
    if "ops" in scn:
        opsteps = None
        if any(o.get("int") for o in scn["ops"]):
            opsteps = proc.child(steps_of, scn, pr, None)
        got = proc.child(sequential, scn, pr, opsteps)
        body = [scn["ops"], got["trace"]]
        nontrivial = got["calls"] > 0 and got["changes"] > 0
        sw = []
    else:
        sch = scn["schedule"]
        if sch["mode"] == "pct" and "points" not in sch:
            scn = c01.resolve(scn, [proc.child(measure, scn, pr)])
        got = proc.child(concurrent, scn, pr)
        sw = got["switches"]
        body = [scn["before"], scn["actors"], sw, got["trace"]]
        nontrivial = got["overlap"] > 0
    stats = {
        "steps": got["steps"], "calls": got["calls"], "changes": got["changes"],
        "backend_calls": got["backend_calls"], "calls_overlapping_a_change": got.get("overlap", 0),
        "concurrent_runs": "ops" not in scn,
    }  # fmt: skip
    for k, v in got["faults"].items():
        stats["fault:" + k] = v
    if sw:
        stats["fault:preemption"] = len(sw)
    return {
        "viol": got["viol"], "stats": stats, "sig": json.dumps(body), "nontrivial": nontrivial,
        "sample": {"scenario": scn, "backend calls": got["trace"][:10]},
    }  # fmt: skip


def explicit(scn):
    if "ops" in scn:
        return None
    pr = defaults()
    got = proc.child(concurrent, c01.resolve(scn, [proc.child(measure, scn, pr)]), pr)
    return dict(scn, schedule={"mode": "explicit", "switches": got["switches"]})


def shrink(scn):
    if "ops" in scn:
        yield from sh.listkey(scn, "ops")
    else:
        yield from sh.listkey(scn, "before")
        for i, seq in enumerate(scn["actors"]):
            for j in range(len(seq)):
                if len(seq) > 1:
                    yield dict(scn, actors=scn["actors"][:i] + [seq[:j] + seq[j + 1 :]] + scn["actors"][i + 1 :])
        yield from sh.switches(scn)
    for n, s in scn["script"].items():
        if any(x != "ok" for x in s):
            yield dict(scn, script={**scn["script"], n: []})
