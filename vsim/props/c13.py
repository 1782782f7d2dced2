"""C13: iterators are consumed once, in order and at most max_iter items."""

import gc
import itertools
import json

import jsonpickle
from jsonpickle.pickler import Pickler

from .. import itzoo, ops, proc
from .. import shrink as sh
from ..faults import EXC
from ..sched import LONG, Sim, limit
from . import c01

TOK = 1000000
FAIL = ["RuntimeError", "TypeError", "KeyError", "AttributeError", "ValueError", "Oops", "IndexError", "KeyboardInterrupt", "StopAsyncIteration"]
ENDLESS = 40  # length of iterators that only max_iter ends


class Gen:
    def __init__(self, rng, share):
        self.rng = rng
        self.share = share
        self.nit = 0
        self.ntok = 0
        self.refs = []
        self.left = rng.choice([3, 6, 10, 16])

    def item(self, depth):
        rng = self.rng
        r = rng.random()
        self.left -= 1
        if depth < 4 and self.left > 0:
            if r < 0.3:
                return self.it(depth)
            if r < 0.42:
                return [rng.choice(["list", "dict", "tuple", "Box"]), [self.item(depth + 1) for _ in range(rng.randint(0, 3))]]
            if r < 0.48:
                return self.red(depth)
            if r < 0.56 and self.share and self.refs:
                return ["ref", rng.choice(self.refs)]
        if rng.random() < 0.12:
            return ["val", rng.choice([None, 0, "", False, 0.0])]
        self.ntok += 1
        return [rng.choice(["tok", "tok", "obj"]), TOK + self.ntok]

    def it(self, depth, kind=None):
        rng = self.rng
        self.nit += 1
        ident = self.nit
        kind = kind or rng.choice(["It", "ItSlots", "ItAbc", "gen", "gen"])
        if kind != "shared" and rng.random() < 0.12:
            kind = rng.choice(["enumerate", "zip", "chain"]) + " " + kind
        items = [self.item(depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        if " " in kind:
            items = [x for x in items if x[0] != "val"]
        if self.share and depth < 3:
            self.refs.append(ident)
        return ["it", ident, kind, items, depth == 0 and rng.random() < 0.15]

    def red(self, depth):
        self.ntok += 1
        tok = TOK + self.ntok
        rng = self.rng
        li = self.it(4, rng.choice(["It", "gen", "ItAbc"])) if rng.random() < 0.8 else None
        di = self.it(4, rng.choice(["It", "gen"])) if rng.random() < 0.5 else None
        for x in (li, di):
            if x:
                x[2] = x[2].rsplit(" ", 1)[-1]
        return ["red", tok, li, di]


def iterators(spec):
    """All iterators of a spec in order."""
    if spec[0] == "it":
        yield spec
        for x in spec[3]:
            yield from iterators(x)
    elif spec[0] in ("list", "dict", "tuple", "Box"):
        for x in spec[1]:
            yield from iterators(x)
    elif spec[0] == "red":
        for x in spec[2:]:
            if x:
                yield from iterators(x)


def objects(spec):
    """The tokens of items with a hook."""
    if spec[0] == "obj":
        yield spec[1]
    elif spec[0] == "it":
        for x in spec[3]:
            yield from objects(x)
    elif spec[0] in ("list", "dict", "tuple", "Box"):
        for x in spec[1]:
            yield from objects(x)
    elif spec[0] == "red":
        for x in spec[2:]:
            if x:
                yield from objects(x)


def gen_root(rng, share):
    g = Gen(rng, share)
    if rng.random() < 0.6:
        return g.it(0)
    return [rng.choice(["list", "dict", "Box"]), [g.item(1) for _ in range(rng.randint(1, 4))]]


def gen_opts(rng):
    o = {}
    if rng.random() < 0.6:
        o["max_iter"] = rng.choice([0, 1, 1, 2, 2, 3, 5, 50])
    for k in ("unpicklable", "make_refs"):
        if rng.random() < 0.15:
            o[k] = False
    if rng.random() < 0.15:
        o["keys"] = True
    if rng.random() < 0.1:
        o["warn"] = True
    return o


def gen_fail(rng, spec):
    its = list(iterators(spec))
    objs = list(objects(spec))
    if not its and not objs:
        return None
    if its and (rng.random() < 0.6 or not objs):
        it = rng.choice(its)
        return ["next", [it[1], rng.randint(0, len(it[3]))], rng.choice(FAIL)]
    # a TypeError of a state hook stands for an object without state
    return ["tok", rng.choice(objs), rng.choice([x for x in FAIL if x != "TypeError"])]


def gen(rng):
    if rng.random() < 0.25:
        return gen_conc(rng)
    share = rng.random() < 0.3
    root = gen_root(rng, share)
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = gen_opts(rng)
        c = {"o": o, "how": rng.choice(["encode", "encode", "flatten", "context"])}
        if rng.random() < 0.4:
            c["fail"] = gen_fail(rng, root)
            if not share and rng.random() < 0.3:
                o["fail_safe"] = True
        elif rng.random() < 0.1:
            c["int"] = [rng.random(), rng.choice(["kbd", "mem", "exit"])]
        if rng.random() < 0.1:
            c["gc"] = True
        calls.append(c)
    if any(" " in x[2] for x in iterators(root)):
        # built-in wrappers keep a position of their own
        del calls[1:]
    if any(x[4] for x in iterators(root)):
        for c in calls:
            c["o"].setdefault("max_iter", rng.choice([0, 1, 3, 7]))
    return {"root": root, "calls": calls, "grain": rng.choice(["line", "call"])}


def gen_conc(rng):
    n = rng.choice([2, 2, 3])
    roots = [gen_root(rng, False) for _ in range(n)]
    for r in roots:
        for x in iterators(r):
            x[4] = False
    shared = None
    if rng.random() < 0.5:
        shared = ["it", 99, "shared", [["tok", TOK + 900000 + i] for i in range(rng.choice([2, 4, 8]))], False]
    actors = []
    for i in range(n):
        c = {"o": gen_opts(rng), "fail": None}
        if rng.random() < 0.2:
            c["fail"] = gen_fail(rng, roots[i])
        actors.append(c)
    return {"roots": roots, "actors": actors, "shared": shared, "grain": rng.choice(["line", "line", "op", "call"]), "schedule": c01.gen_schedule(rng)}


# -- building ----------------------------------------------------------------


class Build:
    def __init__(self, spec, base=0):
        self.base = base  # keeps iterators and tokens of several roots apart
        self.made = {}
        self.sources = {}
        self.root = self.of(spec)

    def tok(self, t):
        return t + self.base * 10000

    def of(self, s):
        if s is None:
            return None
        k = s[0]
        if k == "tok":
            return self.tok(s[1])
        if k == "val":
            return s[1]
        if k == "obj":
            return itzoo.Tok(self.tok(s[1]))
        if k == "ref":
            return self.made.get(s[1])
        if k == "it":
            return self.it(s)
        if k == "red":
            r = itzoo.RedIt()
            r.tok = self.tok(s[1])
            r.li = self.it(s[2]) if s[2] else None
            r.di = self.it(s[3], pairs=True) if s[3] else None
            return r
        kids = [self.of(x) for x in s[1]]
        if k == "list":
            return kids
        if k == "tuple":
            return tuple(kids)
        if k == "dict":
            return {"k%d" % i: x for i, x in enumerate(kids)}
        b = itzoo.Box()
        for i, x in enumerate(kids):
            setattr(b, "a%d" % i, x)
        return b

    def it(self, s, pairs=False):
        _, ident, kind, items, endless = s
        wrap, _, kind = kind.rpartition(" ")
        ident += self.base * 100
        items = [self.of(x) for x in items]
        if endless:
            items += [TOK * 5 + ident * 1000 + i for i in range(ENDLESS)]
        if pairs:
            items = [("p%d" % (i * 7 % 10), x) for i, x in enumerate(items)]
        src = itzoo.Source(ident, items, None)
        self.sources[ident] = src
        o = itzoo.KINDS[kind](src)
        if wrap:
            o = {"enumerate": enumerate, "zip": zip, "chain": itertools.chain}[wrap](o)
        self.made[s[1]] = o
        return o


# -- the model ---------------------------------------------------------------


class Failed(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.fatal = name in ("KeyboardInterrupt", "SystemExit")


class Model:
    """What one call takes from which iterator, and what is stored."""

    def __init__(self, scn_root, base, state, o, fail):
        self.root = scn_root
        self.base = base
        self.pos = state["pos"]
        self.dead = state["dead"]
        self.o = o
        self.fail = fail
        self.pulls = {}
        self.seen = set()
        self.cut = False
        self.full = {}

    def run(self):
        try:
            return ["ok", self.of(self.root)]
        except Failed as e:
            return ["exc", str(e)]

    def guard(self, fn, *args):
        """fail_safe replaces what fails."""
        try:
            return fn(*args)
        except Failed as e:
            if e.fatal or not self.o.get("fail_safe"):
                raise
            return []

    def of(self, s):
        k = s[0]
        if k == "tok":
            return [s[1] + self.base * 10000]
        if k == "val":
            return []
        if k == "obj":
            return self.guard(self.obj, s)
        if k == "it":
            return self.guard(self.it, s)
        if k == "red":
            return self.guard(self.red, s)
        if k == "ref":
            return self.ref(s)
        out = []
        for x in s[1]:
            out += self.of(x)
        return out

    def ref(self, s):
        return [["ref", s[1]]]

    def obj(self, s):
        if self.fail and self.fail[0] == "tok" and self.fail[1] == s[1]:
            raise Failed(self.fail[2])
        return [s[1] + self.base * 10000]

    def take(self, s):
        """One step of an iterator: ("item", spec) or None at the end."""
        ident = s[1]
        i = self.pos.get(ident, 0)
        if ident in self.dead:
            return None
        if self.fail and self.fail[0] == "next" and self.fail[1] == [ident, i]:
            if "gen" in s[2]:
                self.dead.add(ident)
            raise Failed(self.fail[2])
        n = len(s[3]) + (ENDLESS if s[4] else 0)
        if i >= n:
            if "gen" in s[2]:
                self.dead.add(ident)
            return None
        self.pos[ident] = i + 1
        self.pulls.setdefault(ident, []).append(i)
        return s[3][i] if i < len(s[3]) else ["tok", TOK * 5 + (ident + self.base * 100) * 1000 + i - len(s[3]) - self.base * 10000]

    def it(self, s):
        out = []
        n = 0
        m = self.o.get("max_iter")
        while m is None or n < m:
            x = self.take(s)
            if x is None:
                break
            n += 1
            out += [x[1]] if x[0] == "val" else self.of(x)
        return out

    def red(self, s):
        got = []
        for x in s[2:]:
            items = []
            while x:
                y = self.take(x)
                if y is None:
                    break
                items.append(y)
            got.append(items)
        out = [s[1] + self.base * 10000]
        for items in got:
            for y in items:
                out += self.of(y)
        return out


# -- execution ---------------------------------------------------------------


def has_refs(spec):
    return '"ref"' in json.dumps(spec)


def doc_tokens(data):
    out = []

    def walk(d):
        if isinstance(d, bool):
            return
        if isinstance(d, int):
            if d >= TOK:
                out.append(d)
        elif isinstance(d, list):
            for x in d:
                walk(x)
        elif isinstance(d, dict):
            for k, x in d.items():
                if k == "py/iterator" and isinstance(x, list):
                    # items that are false count as well
                    for y in x:
                        if not y and not isinstance(y, (list, dict)):
                            out.append(y)
                        else:
                            walk(y)
                else:
                    walk(x)

    walk(data)
    return out


def options(o):
    kw = dict(o)
    if kw.pop("fail_safe", None):
        kw["fail_safe"] = lambda e: "failed"
    return kw


def encode(call, obj, env):
    kw = options(call["o"])
    if call["how"] == "flatten":
        return Pickler(**kw).flatten(obj)
    if call["how"] == "context":
        key = json.dumps(call["o"], sort_keys=True)
        if key not in env:
            env[key] = Pickler(**kw)
        return json.loads(jsonpickle.encode(obj, context=env[key]))
    return json.loads(jsonpickle.encode(obj, **kw))


def make_exc(name):
    if name == "StopAsyncIteration":
        return StopAsyncIteration("injected")
    return EXC[name]("injected")


class Recorder:
    def __init__(self):
        self.pulls = {}
        self.plan = {}
        self.raised = []

    def on_hook(self, sim, a, site, nid, n, obj):
        fail = self.plan.get(a.idx)
        if fail and site == fail[0] and (list(nid) if site == "next" else nid) == fail[1]:
            self.plan.pop(a.idx)
            exc = make_exc(fail[2])
            self.raised.append(exc)
            raise exc
        if site == "next":
            ident, i = nid
            if i < len(obj.items):
                self.pulls.setdefault(ident, []).append(i)


def lengths(scn):
    return session(scn, None)["lens"]


def session(scn, lens):
    """All calls on the same iterators."""
    rec = Recorder()
    sim = Sim(grain=scn["grain"] if any("int" in c for c in scn["calls"]) else "hook", on_hook=rec.on_hook, arm=bool(lens))
    b = Build(scn["root"])
    refs = has_refs(scn["root"])
    res = {"viol": None, "calls": 0, "judged": 0, "fired": [], "lens": [], "trace": [], "pulls": 0}
    state = {"pos": {}, "dead": set()}
    env = {}

    def body(a):
        for t, call in enumerate(scn["calls"]):
            fail = call.get("fail")
            rec.pulls = {}
            rec.raised = []
            rec.plan = {0: fail} if fail else {}
            sim.interrupts.clear()
            start = a.steps
            if lens and call.get("int"):
                sim.interrupts[0, start + 1 + int(call["int"][0] * lens[t])] = call["int"][1]
            if call.get("gc"):
                gc.collect()
            nfired = len(sim.fired)
            try:
                with ops.traced(sim, a):
                    out = ["ok", encode(call, b.root, env)]
            except ops.GIVE_UP:
                raise
            except BaseException as e:  # noqa: BLE001 - the outcome under test
                out = ["exc", e]
            res["lens"].append(max(1, a.steps - start))
            res["calls"] += 1
            res["pulls"] += sum(map(len, rec.pulls.values()))
            hit = len(sim.fired) > nfired
            res["trace"].append([out[0], sorted(rec.pulls.items())])
            if rec.raised:
                res["fired"].append(f"{type(rec.raised[0]).__name__} in {'iterator' if fail[0] == 'next' else 'item'}")
            if hit:
                res["fired"].append(sim.fired[-1][0])
            bad = once(rec.pulls, state["pos"], scn["root"])
            if hit or refs or (call["o"].get("unpicklable") is False and "red" in json.dumps(scn["root"])):
                # only the bounds: nothing twice, in order, never too many
                bad = bad or loosely(call, rec, out, state, scn["root"], hit)
                for i, p in rec.pulls.items():
                    state["pos"][i] = state["pos"].get(i, 0) + len(p)
                if hit or rec.raised or not refs:
                    if bad:
                        res["viol"] = {"kind": "iterator", "detail": {"call": t, "problem": bad}}
                    return
            else:
                m = Model(scn["root"], 0, state, call["o"], fail)
                want = m.run()
                bad = bad or exactly(want, m, rec, out)
                if not bad and want[0] == "exc" and out[1] not in rec.raised:
                    bad = f"expected the injected {want[1]}, got {type(out[1]).__name__}"
            res["judged"] += 1
            if not bad:
                bad = left_over(b, state)
            if bad:
                res["viol"] = {"kind": "iterator", "detail": {"call": t, "options": call, "problem": bad, "doc": str(out[1])[:400]}}
                return

    sim.run([body])
    res["steps"] = sim.step
    return res


def once(pulls, pos, root):
    for ident, p in pulls.items():
        if p != list(range(p[0], p[0] + len(p))):
            return f"iterator {ident}: items taken in the order {p}"
    return None


def loosely(call, rec, out, state, root, hit):
    m = call["o"].get("max_iter")
    inred = {x[1] for x in reds(root)}
    for ident, p in rec.pulls.items():
        if p[0] != state["pos"].get(ident, 0):
            return f"iterator {ident}: item {p[0]} was taken, the next one is {state['pos'].get(ident, 0)}"
        if m is not None and len(p) > m and ident not in inred:
            return f"iterator {ident}: {len(p)} items taken, max_iter is {m}"
    if out[0] == "ok" and not call["o"].get("fail_safe"):
        got = [x for x in doc_tokens(out[1]) if x]
        if len(set(got)) != len(got) and call["o"].get("make_refs", True) and call["o"].get("unpicklable", True):
            return "an item is in the document twice"
    return None


def reds(spec):
    if spec[0] == "red":
        for x in spec[2:]:
            if x:
                yield x
                for y in x[3]:
                    yield from reds(y)
    elif spec[0] == "it":
        for x in spec[3]:
            yield from reds(x)
    elif spec[0] in ("list", "dict", "tuple", "Box"):
        for x in spec[1]:
            yield from reds(x)


def exactly(want, m, rec, out):
    pulls = {i + m.base * 100: p for i, p in m.pulls.items()}
    mine = {i: p for i, p in rec.pulls.items() if i // 100 == m.base}
    if want[0] != out[0]:
        if out[0] == "exc":
            return f"unexpected {type(out[1]).__name__}: {out[1]}"
        return f"expected {want[1]}, the call returned"
    if mine != pulls:
        return f"items taken {sorted(mine.items())}, expected {sorted(pulls.items())}"
    if out[0] == "ok":
        got = doc_tokens(out[1])
        if got != want[1]:
            return f"items in the document {got}, expected {want[1]}"
    return None


def left_over(b, state):
    """The caller finds the next item where the call stopped."""
    for ident, src in b.sources.items():
        if src.pos != state["pos"].get(ident, 0):
            return f"iterator {ident} is at item {src.pos}, expected {state['pos'].get(ident, 0)}"
    return None


def concurrent(scn):
    rec = Recorder()
    sim = Sim(grain=scn["grain"], schedule=scn["schedule"], on_hook=rec.on_hook)
    if scn.get("max"):
        sim.max_steps = scn["max"]
    res = {"viol": None, "calls": 0, "judged": 0, "fired": [], "pulls": 0, "overlap": 0}
    builds = [Build(r, base=i + 1) for i, r in enumerate(scn["roots"])]
    shared = Build(scn["shared"], base=0) if scn["shared"] else None
    docs = []
    running = [0]

    def make(i):
        c = scn["actors"][i]

        def body(a):
            b = builds[i]
            fail = c["fail"]
            if fail:
                f = list(fail)
                f[1] = [f[1][0] + b.base * 100, f[1][1]] if f[0] == "next" else f[1] + b.base * 10000
                rec.plan[a.idx] = f
            obj = [b.root, shared.root] if shared else b.root
            res["overlap"] += bool(running[0])
            running[0] += 1
            try:
                with ops.traced(sim, a):
                    out = ["ok", json.loads(jsonpickle.encode(obj, **options(c["o"])))]
            except ops.GIVE_UP:
                raise
            except BaseException as e:  # noqa: BLE001 - the outcome under test
                if sim.aborted:
                    raise ops.GIVE_UP[0](sim.aborted) from None
                out = ["exc", e]
            running[0] -= 1
            res["calls"] += 1
            if c["o"].get("unpicklable") is False and "red" in json.dumps(scn["roots"][i]):
                return
            toks = []
            if out[0] == "ok" and shared:
                toks = doc_tokens(out[1][1])
                docs.append(toks)
                out[1] = out[1][0]
                m = c["o"].get("max_iter")
                if m is not None and len(toks) > m:
                    res["viol"] = {"kind": "iterator", "detail": {"actor": i, "problem": f"{len(toks)} items, max_iter is {m}"}}
            m = Model(scn["roots"][i], b.base, {"pos": {}, "dead": set()}, c["o"], fail)
            want = m.run()
            bad = exactly(want, m, rec, out)
            res["judged"] += 1
            if bad and not res["viol"]:
                res["viol"] = {"kind": "iterator", "detail": {"actor": i, "options": c, "problem": bad}}

        return body

    sim.run([make(i) for i in range(len(scn["actors"]))])
    if sim.aborted and not res["viol"]:
        res["viol"] = {"kind": sim.aborted, "detail": "the calls do not terminate"}
    if shared and not res["viol"]:
        taken = sorted(rec.pulls.get(99, []))
        flat = sorted(t for d in docs for t in d)
        bad = None
        if taken != list(range(len(taken))):
            bad = f"items taken from the shared iterator: {taken}"
        elif len(set(flat)) != len(flat) or any(d != sorted(d) for d in docs):
            bad = f"items of the shared iterator in the documents: {docs}"
        elif len(docs) == len(scn["actors"]) and len(flat) != len(taken):
            bad = f"{len(taken)} items taken from the shared iterator, {len(flat)} in the documents"
        if bad:
            res["viol"] = {"kind": "shared iterator", "detail": {"problem": bad}}
    res["pulls"] = sum(map(len, rec.pulls.values()))
    res["fired"] = [f"{type(e).__name__} in iterator or item" for e in rec.raised]
    res.update(steps=sim.step, switches=sim.switches)
    return res


def measure(scn):
    return concurrent(dict(scn, schedule={"mode": "seq"}))["steps"]


def fixed(scn):
    n = proc.child(measure, scn)
    if n > LONG:
        return None
    return dict(c01.resolve(scn, [n]), max=limit(n))


def run(scn):
    sw = []
    if "calls" in scn:
        lens = None
        if any("int" in c for c in scn["calls"]):
            lens = proc.child(lengths, scn)
        got = proc.child(session, scn, lens)
        body = [scn["root"], scn["calls"], got["trace"], got["fired"]]
        nontrivial = got["judged"] > 0 and got["pulls"] > 0
    else:
        scn = fixed(scn)
        if scn is None:
            return {"viol": None, "stats": {"too_long": 1}, "sig": "", "nontrivial": False}
        got = proc.child(concurrent, scn)
        sw = got["switches"]
        body = [scn["roots"], scn["actors"], scn["shared"], sw]
        nontrivial = got["overlap"] > 0 and got["pulls"] > 0
    stats = {
        "steps": got["steps"], "calls": got["calls"], "calls_judged": got["judged"], "items_taken": got["pulls"],
        "concurrent_runs": "calls" not in scn,
    }  # fmt: skip
    for k in got["fired"]:
        stats["fault:" + k] = stats.get("fault:" + k, 0) + 1
    if sw:
        stats["fault:preemption"] = len(sw)
    return {"viol": got["viol"], "stats": stats, "sig": json.dumps(body), "nontrivial": nontrivial, "sample": {"scenario": scn}}


def explicit(scn):
    if "calls" in scn:
        return None
    got = proc.child(concurrent, fixed(scn))
    return dict(scn, schedule={"mode": "explicit", "switches": got["switches"]})


def _smaller(spec):
    """The spec with one child removed or replaced by one of its own."""
    k = spec[0]
    if k == "it":
        for i in range(len(spec[3])):
            yield [*spec[:3], spec[3][:i] + spec[3][i + 1 :], spec[4]]
        for i, x in enumerate(spec[3]):
            for y in _smaller(x):
                yield [*spec[:3], [*spec[3][:i], y, *spec[3][i + 1 :]], spec[4]]
    elif k in ("list", "dict", "tuple", "Box"):
        for i in range(len(spec[1])):
            yield [k, spec[1][:i] + spec[1][i + 1 :]]
        for i, x in enumerate(spec[1]):
            for y in _smaller(x):
                yield [k, [*spec[1][:i], y, *spec[1][i + 1 :]]]
    elif k == "red":
        for i in (2, 3):
            if spec[i]:
                yield [*spec[:i], None, *spec[i + 1 :]]
                for y in _smaller(spec[i]):
                    yield [*spec[:i], y, *spec[i + 1 :]]


def shrink(scn):
    if "calls" in scn:
        yield from (c for c in sh.listkey(scn, "calls") if c["calls"])
        for r in _smaller(scn["root"]):
            yield dict(scn, root=r)
        for i, c in enumerate(scn["calls"]):
            for x in ("fail", "int", "gc"):
                if x in c:
                    yield dict(scn, calls=[*scn["calls"][:i], {k: v for k, v in c.items() if k != x}, *scn["calls"][i + 1 :]])
        yield from sh.op_opts(scn, "calls")
        return
    yield from sh.op_opts(scn, "actors")
    if scn["shared"]:
        yield dict(scn, shared=None)
    for i, r in enumerate(scn["roots"]):
        for s in _smaller(r):
            yield dict(scn, roots=scn["roots"][:i] + [s] + scn["roots"][i + 1 :])
    yield from sh.switches(scn)
