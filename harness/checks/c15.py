"""C15  underlying graph"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C15"
TRACE = "TraceXform"
BAD = "BadUnderlying"
RULE = "distinct networks with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 15)
    out = []
    for i in range(480 if run.tier == "quick" else 5000):
        cfg = rand_cfg(rng, asps=(0, 1, 1, 2, 2))
        asp = cfg["asp"]
        jn = rand_net(rng, cfg, big=0.04, nnodes=(0, 1, 2, 3, 4, 5) if asp < 2 else (1, 2, 3), nlayers=(1, 2, 3) if asp < 2 else (1, 2))
        out.append(decorate(rng, {"net": jn}, cfg, scaled=True))
    return out


def run(case):
    import netlib
    import fn
    from labels import num
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    g = netlib.pymnet.transforms.get_underlying_graph(net)
    name = {}
    for a in fn.prod([list(range(20))] + [list(range(8))] * ctx.asp):
        name[str(ctx.L.nl(a))] = a
    names = list(g)
    prs = []
    for u in names:
        for v in names:
            w = g[u, v]
            if w != g.noEdge:
                prs.append([name.get(u, [-9]), name.get(v, [-9]), ctx.V.num(w)])
    o = {"nodes": [name.get(u, [-9]) for u in names], "p": prs, "ne": len(g.edges), "dir": bool(g.directed),
         "noedge": ctx.V.enc(g.noEdge), "cls": int(isinstance(g, netlib.pymnet.MultilayerNetwork) and g.aspects == 0),
         "after": netlib.proj_net(ctx, net)}
    return fn.ok(case, o)


def nontrivial(case, res):
    return str(case["net"]) if case["net"]["e"] else None
