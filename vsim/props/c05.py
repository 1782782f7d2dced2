"""C05: fail_safe confines a failure to the failing object."""

import copy
import json

import jsonpickle

from .. import graph, ops, proc
from .. import shrink as sh
from ..faults import EXC, ENC_SITES, FATAL, ORDINARY, documented_fallback, key
from ..sched import Sim

BASE = 100
FALLBACKS = [None, "failed", 7, False, 1.5, "", 0]
# write their parts at two places
TWICE = {"NewArgs", "NewArgsEx", "NT", "TupleSub", "InitArgs"}


def gen(rng):
    keyed = rng.random() < 0.25
    hk, kinds = (), graph.ALL
    if rng.random() < 0.25:
        from .. import heavy

        hk = rng.sample(heavy.KINDS, 1)
        kinds = graph.ALL + ["NpObj"] * 8
    plain = rng.random() < 0.1
    cut = not plain and not keyed and not hk and rng.random() < 0.15
    if cut:  # no sharing: the repr of a part cut off cannot show a replaced object
        g = graph.gen_graph(rng, size=rng.choice([3, 4, 6, 8, 10]), cyc=False, share=0.0, leaves=graph.PRIM_KINDS,
                            kinds=[k for k in graph.ALL if k not in TWICE])  # fmt: skip
        g = graph.ensure_hooked(rng, g)
    elif plain:
        g = graph.gen_graph(rng, size=rng.choice([2, 3, 5]), keyed=False, cyc=False,
                            kinds=sorted(graph._PROPS), leaves=graph.PRIM_KINDS)  # fmt: skip
    else:
        g = graph.gen_graph(rng, size=rng.choice([2, 3, 4, 6, 8, 10, 14]), keyed=keyed, heavy_kinds=hk,
                            kinds=kinds, share=rng.choice([0.3, 0.6, 0.8]))  # fmt: skip
        g = graph.ensure_hooked(rng, g)
    o = ops.gen_enc_opts(rng, faithful=rng.random() < 0.7, keyed=keyed, cyc=g["cyc"],
                         props=graph.props_ok(g) and not g["cyc"])  # fmt: skip
    o["fail_safe"] = None
    o.pop("handle_readonly", None)
    # prints the repr of whole subtrees into the document
    o.pop("max_depth", None)
    if cut:
        o["max_depth"] = rng.randint(1, 6)
        o.pop("make_refs", None)
        o.pop("unpicklable", None)
    if g["cyc"]:
        o.pop("make_refs", None)
    n = len(g["nodes"])
    plan = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        plan.append({
            "pick": rng.random(), "exc": rng.choice(ORDINARY),
            "nth": rng.choice([None, None, None, 0]), "skip": rng.choice([0, 0, 0, 1, 2]),
        })  # fmt: skip
    fatal = rng.random() < 0.08
    if fatal:
        plan[0]["exc"] = rng.choice(FATAL)
    return {"graphs": [g], "o": o, "fs": rng.choice(FALLBACKS), "plan": plan}


def encode(scn, entries, g):
    """One encode call with failures at (site, node); entries carry a key."""
    seen = {}
    raised = []
    reported = []
    fired = []
    by = {}
    for e in entries:
        by.setdefault(key(e["site"], e["nid"]), []).append(e)

    def on_hook(sim, a, site, nid, n, obj):
        for e in by.get(key(site, nid), ()):
            k = (site, nid, e["skip"])
            c = seen[k] = seen.get(k, -1) + 1
            if c < e["skip"]:
                continue
            if e["nth"] is None or (e["nth"] == 0 and not e.get("spent")):
                e["spent"] = True
                seen[k] = -1  # a persistent failure repeats on the next visit
                exc = EXC[e["exc"]]("injected", site)
                raised.append(exc)
                fired.append(f"{e['exc']} in {site}")
                raise exc

    def fail_safe(exc):
        reported.append(exc)
        return scn["fs"]

    sim = Sim(grain="hook", on_hook=on_hook)
    obj = graph.build(g, BASE)
    kw = ops.enc_kwargs({k: v for k, v in scn["o"].items() if k != "fail_safe"})
    box = {}

    def body(a):
        try:
            text = jsonpickle.encode(obj, fail_safe=fail_safe, **kw)
            box["out"] = ["ok", text]
        except BaseException as e:  # noqa: BLE001 - the outcome under test
            box["exc"] = e
            box["out"] = ops.exc_outcome(e)

    sim.run([body])
    out = {
        "out": [box["out"][0], ops.norm(box["out"][1]), *box["out"][2:]],
        "raised": len(raised), "fired": fired, "steps": sim.step,
        "sites": [[s, list(i) if isinstance(i, tuple) else i] for _, s, i, _ in sim.hooklog],
        "reports_match": len(raised) == len(reported) and all(a is b for a, b in zip(raised, reported)),
        "reported": [ops.exc_outcome(e) for e in reported],
        "fatal_is": bool(raised) and box.get("exc") is raised[-1],
    }  # fmt: skip
    if box["out"][0] == "ok" and decodable(scn["o"]):
        try:
            dec = jsonpickle.decode(box["out"][1], keys=bool(scn["o"].get("keys")))
            out["decoded"] = graph.canon(dec, loose=True)
        except Exception as e:  # noqa: BLE001 - compared with the clean document's
            out["decoded"] = ops.exc_outcome(e)
    return out


def decodable(o):
    return not any(k in o for k in ("unpicklable", "make_refs", "max_depth", "max_iter", "numeric_keys",
                                    "use_decimal", "include_properties"))  # fmt: skip


def simple(g):
    """Traversal order equals the order of the edges."""
    ok = {"list", "dict", "Plain", "Sub", "Inner", "State", "StateNoSet", "tuple", "Handled", "HInst", "HBase",
          "HChild", "HKids", "HCtx", "DictItems", "ListIter"}  # fmt: skip
    # tuples are written at each visit, lists and objects at the first
    into = [e[1] for n in g["nodes"] for e in n["c"] if e[0] == "n"]
    if any(n["k"] == "tuple" and into.count(i) > 1 for i, n in enumerate(g["nodes"])):
        return False
    return all(n["k"] in ok and all(k[0] == "s" for k in n.get("ks", ())) for n in g["nodes"])


def replaced(g, nids, once, fs):
    """The graph with the failing nodes replaced by the fallback value.

    ``once`` nodes are replaced at their first visit only (depth first, in
    the order of the edges; a failing node's own children do not count as
    visited by it, they are withdrawn with it).
    """
    new = copy.deepcopy(g)
    leaf = ["v", ["const", fs]]
    nodes = new["nodes"]
    for node in nodes:
        node["c"] = [leaf if e[0] == "n" and BASE + e[1] in nids else e for e in node["c"]]
    if BASE in nids:
        return None
    if once:
        spent = set()
        visited = set()

        def go(i):
            if i in visited:
                return
            visited.add(i)
            for x, e in enumerate(nodes[i]["c"]):
                if e[0] != "n":
                    continue
                nid = BASE + e[1]
                if nid in once and nid not in spent:
                    spent.add(nid)
                    nodes[i]["c"][x] = leaf
                else:
                    go(e[1])

        if BASE in once:
            return None
        go(0)
    return new


def resolve(scn, sites):
    """Turn picks into (site, nid) of hooks that fire in a clean run."""
    nids = range(100, 100 + len(scn["graphs"][0]["nodes"]))  # keys are not replaced one by one
    cand = [s for s in sites if s[0] in ENC_SITES and isinstance(s[1], int) and s[1] in nids]
    out = []
    if not cand:
        return out
    used = set()
    for p in scn["plan"]:
        site, nid = cand[min(len(cand) - 1, int(p["pick"] * len(cand)))]
        if documented_fallback(site, p["exc"]) or nid in used:
            continue
        used.add(nid)
        total = sum(1 for s in cand if s == [site, nid])
        once = p["nth"] is not None
        skip = p["skip"] if p["skip"] < total else 0
        if once and (scn["o"].get("keys") or len(scn["plan"]) > 1 or not simple(scn["graphs"][0])
                     or site in ("h_flatten2", "h_flatten1", "items", "listiter") or not decodable(scn["o"])):  # fmt: skip
            once = False
        out.append({"site": site, "nid": nid, "exc": p["exc"], "nth": 0 if once else None,
                    "skip": 0 if once else skip})  # fmt: skip
    return out


def run(scn):
    g = scn["graphs"][0]
    dry = proc.child(encode, scn, [], g)
    entries = resolve(scn, dry["sites"]) if dry["out"][0] == "ok" else []
    stats = {"steps": dry["steps"], "calls": 0}
    res = {"viol": None, "stats": stats, "sig": "", "nontrivial": False, "sample": scn}
    if not entries:
        return res
    got = proc.child(encode, scn, entries, g)
    stats["steps"] += got["steps"]
    stats["calls"] = 1
    if not got["raised"]:
        return res
    for f in got["fired"]:
        stats["fault:" + f] = stats.get("fault:" + f, 0) + 1
    res["nontrivial"] = True
    res["sig"] = json.dumps([g, scn["o"], scn["fs"], got["fired"]])
    res["sample"] = {"scenario": scn, "fired": got["fired"], "out": str(got["out"])[:400]}
    if any(f.split(" ")[0] in FATAL for f in got["fired"]):
        if not got["fatal_is"]:
            res["viol"] = {"kind": "fatal-swallowed", "detail": {"fired": got["fired"], "out": got["out"]}}
        return res
    if got["out"][0] != "ok":
        res["viol"] = {"kind": "not-contained", "detail": {"fired": got["fired"], "out": got["out"]}}
        return res
    if not got["reports_match"]:
        res["viol"] = {"kind": "callback", "detail": {"fired": got["fired"], "reported": got["reported"]}}
        return res
    always = {e["nid"] for e in entries if e["nth"] is None}
    once = {e["nid"] for e in entries if e["nth"] is not None}
    want_g = replaced(g, always, once, scn["fs"])
    if want_g is None:
        # the whole document is the fallback value
        want = {"out": ["ok", json.dumps(scn["fs"])], "decoded": graph.canon(scn["fs"], loose=True)}
    else:
        want = proc.child(encode, scn, [], want_g)
    bad = None
    if "RecursionError" in str(want["out"][1:2]):
        return res
    if got["out"] != want["out"]:
        bad = ["text", want["out"], got["out"]]
    elif want_g is not None and "decoded" in got:
        orig = proc.child(canon_of, want_g)
        if got["decoded"] != orig and want.get("decoded") == orig:
            bad = ["graph", orig, got["decoded"]]
    if bad:
        res["viol"] = {"kind": "not-confined:" + bad[0],
                       "detail": {"fired": got["fired"], "expected": bad[1], "got": bad[2]}}  # fmt: skip
    return res


def canon_of(g):
    return graph.canon(graph.build(g, BASE), loose=True)


def shrink(scn):
    for c in sh.listkey(scn, "plan"):
        if c["plan"]:
            yield c
    yield from sh.graphs(scn)
    for k in list(scn["o"]):
        if k not in ("fail_safe", "keys"):
            o = dict(scn["o"])
            del o[k]
            yield dict(scn, o=o)
