"""C20  shortest paths"""
import random
import sys

from fn import rand_cfg, rand_net, decorate, failed, prod  # noqa: F401

PID = "C20"
TRACE = "TraceDiag"
BAD = "BadPaths"
RULE = "distinct (network, sources) with at least one edge"


def models(tier):
    return []


def layered(rng, cfg):
    """shortcuts on one layer, ties on the other: some shortest paths exist only through node-layers that are not the closest"""
    n = rng.choice([4, 5, 5, 6, 6])
    jn = dict(cfg)
    p = rng.sample(range(6), n)
    a, b = rng.sample(range(3), 2)
    jn["el"] = [sorted(p), sorted([a, b])]
    jn["nl"] = [] if cfg["full"] else prod(jn["el"])
    q = rng.choice([0.1, 0.1, 0.3, 0.5, 0.7])
    ties = {(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (4, 5)} if rng.random() < 0.7 else set()
    e = [[[p[i], b], [p[j], b], 1] for i in range(n) for j in range(i + 1, n) if rng.random() < (0.9 if (i, j) in ties else q)]
    e += [[[p[0], a], [p[j], a], 1] for j in range(1, n) if rng.random() < (0.6 if j == 3 else 0.25)]
    if rng.random() < 0.2:
        k = rng.randrange(1, n)
        e.append([[p[k], a], [p[k], b], 1])
    jn["e"] = e
    return jn, [p[0], a]


def cases(run):
    rng = random.Random(run.seed * 31 + 20)
    out = []
    while len(out) < (480 if run.tier == "quick" else 4000):
        fn = rng.choice(["dijkstra", "dijkstra", "prune"])
        deep = fn == "prune" and rng.random() < 0.6     # paths that pass through node-layers that are not the closest ones
        zero = rng.random() < 0.3 and not deep      # edges of weight zero, absent ones are marked by -1
        cfg = rand_cfg(rng, asps=(0, 1, 1, 2) if fn == "dijkstra" else (1, 1, 2), noedges=(-1,) if zero else (0, 0, 100))
        if deep:
            cfg = rand_cfg(rng, kinds=("ml",), asps=(1,), noedges=(0,))
        zero = zero and cfg["kind"] == "ml"
        asp = cfg["asp"]
        jn = rand_net(rng, cfg, big=0.04, nnodes=(2, 3, 4, 5, 6) if asp == 0 else (2, 3, 4) if asp < 2 else (2, 3), nlayers=(1, 2, 3) if asp < 2 else (1, 2),
                      weights=rng.choice([(0,), (0, 1), (0, 0, 1, 2)] if zero else [(1,), (1, 2, 3), (1, 2, 3, 5, 7)]), density=rng.choice([0.15, 0.3, 0.5, 0.8]), selfloops=False)
        if deep:
            jn, first = layered(rng, cfg)
        nls = prod(jn["el"]) if cfg["full"] else jn["nl"]
        if not nls:
            continue
        src = rng.sample(nls, min(len(nls), rng.choice([1, 1, 2, 3]) if not deep else 1))
        c = {"net": jn, "fn": fn}
        if fn == "prune":
            # aggregated: aspects (0 = nodes), not all of them
            if deep:
                src = [first]
            over = [1] if deep else sorted(rng.sample(range(asp + 1), rng.randrange(1, asp + 1)))
            c["over"] = over
            src = [[-1 if k in over else a[k] for k in range(asp + 1)] for a in src]
            src = [list(t) for t in sorted(set(map(tuple, src)))]
        c["sources"] = src
        c = decorate(rng, c, cfg, scaled=True)
        if rng.random() < 0.25:
            c["lab"] = ["x"] + [c["lab"][k + 1] if cfg["coup"] and cfg["coup"][k]["t"] == "ordinal" else "x" for k in range(asp)]
        c["iter"] = rng.random() < 0.3
        if asp == 0 and c["lab"][0] == "t":
            c["lab"][0] = "s"
        out.append(c)
    # one long path, whose last node is reached only through node-layers that are not the closest ones of their nodes
    c = dict([c for c in out if c["net"]["kind"] == "ml" and c["cfg"]["asp"] == 1 and c["fn"] == "prune" and c["scale"] == 1][0])
    c.update(fn="chain", n=1200 if run.tier == "quick" else 5000)
    out.append(c)
    return out


def chain(D, pymnet, n):
    net = pymnet.MultilayerNetwork(aspects=1)
    for i in range(n):
        if i < n - 1:
            net[i, "a"][i + 1, "a"] = 1
        net[i, "b"][i + 1, "b"] = 2
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)     # the interpreter's own
    try:
        d, f = D.dijkstra_mlayer_prune(net, [(0, None)], [1])
    finally:
        sys.setrecursionlimit(limit)
    es = list(f.edges)
    return {"size": len(d), "d": [[i, d[i,]] for i in (0, 1, n // 2, n - 1, n)],
            "within": [[l, sum(1 for e in es if e[2] == e[3] == l), sum(e[4] for e in es if e[2] == e[3] == l)] for l in ("a", "b")], "edges": len(es)}


def run(case):
    import netlib
    import fn
    from labels import num
    D = netlib.pymnet.diagnostics
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    L = ctx.L
    asp = ctx.asp

    def edges(f):
        out = []
        for e in f.edges:
            link, w = e[:-1], e[-1]
            a, b = [[L.atom(k, link[2 * k + i]) for k in range(asp + 1)] for i in (0, 1)]
            out.append([a, b, case["net"]["noedge"] if a == b and w == ctx.V.noedge_py else ctx.V.num(w)])      # roots have no weight
        return out
    if case["fn"] == "chain":
        o = chain(D, netlib.pymnet, case["n"])
    elif case["fn"] == "dijkstra":
        src = [L.nl(a) if asp > 0 else L.lab(0, a[0]) for a in case["sources"]]
        d, f = D.dijkstra(net, iter(src) if case["iter"] else src)
        o = {"d": [[L.unl(k), ctx.V.num(v)] for k, v in d.items()], "f": edges(f),
             "fnl": [L.unl(x) for x in f.iter_node_layers()], "fcfg": [f.aspects, bool(f.directed)]}
    else:
        src = [tuple(None if x == -1 else L.lab(k, x) for k, x in enumerate(a)) for a in case["sources"]]
        keep = [k for k in range(asp + 1) if k not in case["over"]]
        d, f = D.dijkstra_mlayer_prune(net, iter(src) if case["iter"] else src, case["over"])
        o = {"d": [[[L.atom(k, x) for k, x in zip(keep, key)] if len(key) == len(keep) else [-9], ctx.V.num(v)] for key, v in d.items()],
             "f": edges(f)}
    o["after"] = netlib.proj_net(ctx, net)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case[k] for k in ("net", "fn", "sources")]) if case["net"]["e"] else None
