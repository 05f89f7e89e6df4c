"""C23  configuration models and overlap models"""
import random

from fn import failed, cat, ordi, none  # noqa: F401

PID = "C23"
TRACE = "TraceModels"
BAD = "BadConf"
CASE_LIMIT = 60
RULE = "distinct (function, degree sequences); degree sequences are those of random graphs"


def models(tier):
    return []


def graph(rng, n, m):
    e = set()
    while len(e) < m:
        a, b = rng.sample(range(n), 2)
        e.add((min(a, b), max(a, b)))
    return e


def degrees(rng):
    """a degree sequence for which the swapping terminates"""
    r = rng.random()
    if r < 0.25:       # a matching
        n = rng.randrange(2, 9)
        k = rng.randrange(0, n // 2 + 1)
        d = [1] * (2 * k) + [0] * (n - 2 * k)
        rng.shuffle(d)
        return d
    n = rng.randrange(18, 25)
    d = [0] * n
    for a, b in graph(rng, n, rng.randrange(n * 3 // 4, n + 4)):
        d[a] += 1
        d[b] += 1
    return d


def hist(d):
    h = {}
    for x in d:
        h[x] = h.get(x, 0) + 1
    return sorted([k, v] for k, v in h.items())


def cases(run):
    rng = random.Random(run.seed * 31 + 23)
    out = []
    big = run.tier != "quick"
    for i in range(170 if not big else 1600):
        f = rng.choice(["mono", "mono", "layers", "layers", "layers", "net", "mxnet", "single"])
        dist = rng.random() < 0.5 and f not in ("net", "mxnet")
        c = {"fn": "conf", "how": f, "seed": rng.randrange(1 << 30), "lab": rng.choice(["i", "i", "s", "j"]) if not dist else "i"}
        if f in ("mono", "net", "single"):
            d = degrees(rng)
            c.update(kind="ml", full=True, coup=[], nl=[], el=[list(range(len(d)))],
                     layers=[{"l": [], "nodes": list(range(len(d))), "dist": dist,
                              "deg": hist(d) if dist else [[k, v] for k, v in enumerate(d)]}])
            if f == "single" and rng.random() < 0.5:
                c.update(noedge=-1, nek=rng.choice(["int", "none", "inf", "str"]))
        else:
            L = rng.choice([1, 2, 3])
            first = degrees(rng)
            lays = []
            aligned = rng.random() < 0.5
            for k in range(L):
                d = degrees(rng)
                while aligned and len(d) != len(first):
                    d = degrees(rng) if len(first) >= 18 else rng.sample(first, len(first))
                ns = list(range(len(d)))
                if not aligned and not dist and rng.random() < 0.5:
                    ns = sorted(rng.sample(range(25), len(d)))
                lays.append({"l": [k], "nodes": ns, "dist": dist, "deg": hist(d) if dist else [list(x) for x in zip(ns, d)]})
            full = len(set(tuple(y["nodes"]) for y in lays)) == 1 if not dist else len(set(len(y["nodes"]) for y in lays)) == 1
            coup = cat(1) if rng.random() < 0.5 else rng.choice([cat(2), ordi(3), ordi(1)])
            c.update(kind="mx", full=full, coup=[coup], layers=lays, named=rng.random() < 0.5,
                     el=[sorted(set(x for y in lays for x in y["nodes"])), list(range(L))],
                     nl=[] if full else [[x] + y["l"] for y in lays for x in y["nodes"]])
        out.append(c)
    for i in range(50 if not big else 500):
        n = rng.randrange(20, 26)
        combs = rng.sample([[0], [1], [2], [0, 1], [1, 2], [0, 2], [0, 1, 2]], rng.randrange(1, 5))
        lays = sorted(set(x for y in combs for x in y))
        free = [(a, b) for a in range(n) for b in range(a + 1, n)]
        rng.shuffle(free)
        comb = []
        for cb in combs:
            d = [0] * n
            for _ in range(rng.choice([n * 3 // 4, n - 3])):
                a, b = free.pop()
                d[a] += 1
                d[b] += 1
            comb.append({"c": cb, "deg": [list(x) for x in enumerate(d)]})
        nodes = list(range(n))
        m = {x: i for i, x in enumerate(lays)}
        out.append({"fn": "conf_overlaps", "seed": rng.randrange(1 << 30), "kind": "mx", "full": True, "nl": [],
                    "coup": [rng.choice([none(), cat(1)])], "el": [nodes, list(range(len(lays)))], "lab": rng.choice(["i", "j"]),
                    "comb": [{"c": [m[x] for x in y["c"]], "deg": y["deg"]} for y in comb]})
    for i in range(50 if not big else 500):
        n = rng.randrange(8, 14)
        edges = rng.choice([4, 5, 8])
        combs = rng.sample([[0, 1], [1, 2], [0, 2], [0, 1, 2]], rng.randrange(1, 3))
        lays = sorted(set(x for y in combs for x in y) | set(rng.sample(range(3), rng.randrange(3))))
        m = {x: i for i, x in enumerate(lays)}
        left = {x: edges for x in lays}
        comb = []
        for cb in combs:
            q = rng.randrange(0, max(1, edges // 3) + 1)
            comb.append({"c": [m[x] for x in cb], "m": q * len(cb), "q": q})
            for x in cb:
                left[x] -= q
        if edges * len(lays) > n * (n - 1) // 2 - 3:
            continue
        for x in lays:
            comb.append({"c": [m[x]], "m": left[x], "q": -1})
        rng.shuffle(comb)
        out.append({"fn": "er_overlaps", "seed": rng.randrange(1 << 30), "kind": "mx", "full": True, "nl": [], "edges": edges,
                    "coup": [rng.choice([none(), cat(1)])], "el": [list(range(n)), list(range(len(lays)))], "lab": "i", "comb": comb})
    N = 1500 if not big else 15000
    for deg in ([1, 1, 1, 1], [1, 1, 1, 1, 0], [1, 1, 1, 1, 1, 1]):
        n = len(deg)
        out.append({"fn": "counts", "family": "deg", "deg": [list(x) for x in enumerate(deg)], "n": N,
                    "pairs": [[i, j] for i in range(n) for j in range(i + 1, n) if deg[i] and deg[j]], "seed": rng.randrange(1 << 30)})
    return out


def run(case):
    import netlib
    import fn
    from pymnet import models
    pymnet = netlib.pymnet
    f = case["fn"]
    if f == "counts":
        d = {a: k for a, k in case["deg"]}
        return fn.ok(case, {"counts": fn.counted(lambda: models.conf(d, degstype="nodes"), lambda net: [(e[0], e[1]) for e in net.edges],
                                                 case["n"], case["seed"])})
    asp = len(case["el"]) - 1
    ctx = fn.ident_ctx(case["kind"], asp, case["coup"], case["full"], lab=[case["lab"]] + ["i"] * asp,
                       noedge=case.get("noedge", 0), nek=case.get("nek", "int"))
    lab = lambda a: ctx.L.lab(0, a)
    k = case["coup"][0] if case["coup"] else None
    rng = random.Random(case["seed"])
    seeds = [case["seed"] + j for j in range(8)]
    cp = {}
    if k and (f != "conf" or k["t"] != "categorical" or k["w"] != 1):
        cp["couplings"] = (k["t"], k["w"]) if k["t"] != "none" else None
        if case["seed"] % 2 and cp["couplings"] == (("categorical", 1) if f == "conf" else None):
            cp = {}     # the default
    if f == "conf":
        dist = case["layers"][0]["dist"]
        kind = "distribution" if dist else "nodes"
        ds = [{(a if dist else lab(a)): v for a, v in y["deg"]} for y in case["layers"]]
        how = case["how"]
        if how in ("net", "mxnet"):
            # a network with these degrees, of which a copy is asked for
            src = fn.retry(lambda: models.conf(ds[0] if how == "net" else ds, degstype="nodes"), seeds)
            call = lambda: models.conf(src, **cp)
        elif how == "mono":
            call = lambda: models.conf(ds[0], degstype=kind)
        elif how == "single":
            def call():
                net = pymnet.MultilayerNetwork(aspects=0, noEdge=ctx.V.noedge_py)
                models.single_layer_conf(net, ds[0], degstype=kind)
                return net
        elif case["named"]:
            call = lambda: models.conf(dict(enumerate(ds)), degstype=kind, **cp)
        else:
            call = lambda: models.conf(ds, degstype=kind, **cp)
        net = fn.retry(call, seeds)
    elif f == "conf_overlaps":
        od = {tuple(y["c"]): {lab(a): v for a, v in y["deg"]} for y in case["comb"]}
        net = fn.retry(lambda: models.conf_overlaps(od, **cp), seeds)
    else:
        e = float(case["edges"])
        ps = {tuple(y["c"]): (y["q"] / e if y["q"] >= 0 else rng.random()) for y in case["comb"]
              if y["q"] >= 0 or True}
        net = fn.retry(lambda: models.er_overlaps_match_aggregated(len(case["el"][0]), case["edges"], ps, **cp), seeds)
    return fn.ok(case, {"res": netlib.proj_net(ctx, net)})


def nontrivial(case, res):
    return str([case.get(k) for k in ("fn", "how", "layers", "comb", "deg")])


def leaf_ok(path):
    return "counts" not in path or path[-1] != 1
