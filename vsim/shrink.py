"""Reductions shared by the properties; each yields smaller scenarios."""

import copy

from . import graph


def _with(scn, **kw):
    new = dict(scn)
    new.update(kw)
    return new


def switches(scn):
    sch = scn.get("schedule")
    if not sch or sch.get("mode") != "explicit":
        return
    sw = sch["switches"]
    n = len(sw)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            cut = sw[:i] + sw[i + size :]
            if len(cut) < n:
                yield _with(scn, schedule={"mode": "explicit", "switches": cut})
        size //= 2


def graphs(scn, key="graphs"):
    gs = scn.get(key) or []
    for i, g in enumerate(gs):
        n = len(g["nodes"])
        # drop many, then one
        for j in range(n - 1, 0, -1):
            new = list(gs)
            new[i] = graph.drop_node(g, j)
            yield _with(scn, **{key: new})
        for j, node in enumerate(g["nodes"]):
            for e in range(len(node["c"])):
                new = copy.deepcopy(gs)
                nn = new[i]["nodes"][j]
                del nn["c"][e]
                if "ks" in nn and e < len(nn["ks"]):
                    del nn["ks"][e]
                yield _with(scn, **{key: new})
            for e, edge in enumerate(node["c"]):
                if edge[0] == "v" and edge[1] != ["int", 0]:
                    new = copy.deepcopy(gs)
                    new[i]["nodes"][j]["c"][e] = ["v", ["int", 0]]
                    yield _with(scn, **{key: new})
            if node["k"] not in ("list", "Plain"):
                for k in ("list", "Plain"):
                    new = copy.deepcopy(gs)
                    new[i]["nodes"][j] = {"k": k, "c": node["c"]}
                    yield _with(scn, **{key: new})


def listkey(scn, key):
    xs = scn.get(key) or []
    if len(xs) > 3:
        half = len(xs) // 2
        yield _with(scn, **{key: xs[:half]})
        yield _with(scn, **{key: xs[half:]})
    for i in range(len(xs)):
        yield _with(scn, **{key: xs[:i] + xs[i + 1 :]})


def op_opts(scn, key):
    """Drop single options of operations in a (possibly nested) list."""

    def sites(x):
        if isinstance(x, dict):
            if isinstance(x.get("o"), dict):
                yield x
            for v in x.values():
                yield from sites(v)
        elif isinstance(x, list):
            for v in x:
                yield from sites(v)

    n = len(list(sites(scn.get(key))))
    for i in range(n):
        names = list(list(sites(scn[key]))[i]["o"])
        for name in names:
            new = copy.deepcopy(scn[key])
            del list(sites(new))[i]["o"][name]
            yield _with(scn, **{key: new})


def actors(scn):
    xs = scn["actors"]
    for i in range(len(xs)):
        if len(xs) > 1 and scn.get("schedule", {}).get("mode") != "explicit":
            yield _with(scn, actors=xs[:i] + xs[i + 1 :])
        elif len(xs) > 2:
            sw = [
                [s, a - (a > i)] for s, a in scn["schedule"]["switches"] if a != i
            ]
            yield _with(
                scn,
                actors=xs[:i] + xs[i + 1 :],
                schedule={"mode": "explicit", "switches": sw},
            )
    for i, ops in enumerate(xs):
        for j in range(len(ops)):
            if len(ops) > 1:
                yield _with(scn, actors=xs[:i] + [ops[:j] + ops[j + 1 :]] + xs[i + 1 :])
