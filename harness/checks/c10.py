"""C10  aggregation over aspects and overlay networks"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C10"
TRACE = "TraceXform"
BAD = "BadAgg"
RULE = "distinct (network, aspects, options) with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 10)
    out = []
    for i in range(640 if run.tier == "quick" else 6000):
        fn = "overlay" if i % 5 == 0 else "aggregate"
        if fn == "overlay":
            cfg = rand_cfg(rng, asps=(1,))
            jn = rand_net(rng, cfg, nnodes=(1, 2, 3, 4), selfloops=False)
            out.append(decorate(rng, {"net": jn, "fn": fn}, cfg, scaled=True))
            continue
        cfg = rand_cfg(rng, asps=(1, 1, 2, 2, 3))
        asp = cfg["asp"]
        # partial sums must not meet the no-edge value
        ws = (1, 2, 3, -2) if cfg["noedge"] == 0 else (1, 2, 3, 4)
        jn = rand_net(rng, cfg, big=0.03, nnodes=(0, 1, 2, 3, 4) if asp < 2 else (1, 2, 3) if asp == 2 else (1, 2),
                      nlayers=(1, 2, 3) if asp < 2 else (1, 2), weights=ws)
        over = sorted(rng.sample(range(1, asp + 1), rng.randrange(1, asp + 1)))
        c = decorate(rng, {"net": jn, "fn": fn, "over": over, "selfe": rng.random() < 0.35,
                           "form": rng.randrange(3), "given": rng.randrange(3)}, cfg, scaled=True)
        out.append(c)
    for c in out:    # a monoplex network cannot have tuples as nodes
        if c["lab"][0] == "t" and (c["fn"] == "overlay" or len(c["over"]) == c["cfg"]["asp"]):
            c["lab"][0] = "s"
    return out


def run(case):
    import netlib
    import fn
    pymnet = netlib.pymnet
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    if case["fn"] == "overlay":
        res = pymnet.transforms.overlay_network(net)
        c2 = netlib.restricted(ctx, [0])
        c2.V = netlib.Values("int", 0, ctx.scale)
        return fn.ok(case, {"res": netlib.proj_net(c2, res), "after": netlib.proj_net(ctx, net)})
    over = case["over"]
    keep = [k for k in range(ctx.asp + 1) if k not in over]
    arg = over[0] if len(over) == 1 and case["form"] == 0 else list(over) if case["form"] == 1 else tuple(reversed(over))
    kw = {}
    if case["selfe"]:
        kw["selfEdges"] = True
    new = None
    if case["given"] == 0:
        new = kw["newNet"] = pymnet.MultilayerNetwork(aspects=len(keep) - 1, directed=net.directed, noEdge=net.noEdge,
                                                      fullyInterconnected=net.fullyInterconnected)
    res = pymnet.aggregate(net, arg, **kw)
    o = {"same": 1 if new is None or res is new else 0,
         "res": netlib.proj_net(netlib.restricted(ctx, keep), res), "after": netlib.proj_net(ctx, net)}
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case[k] for k in ("net", "fn")] + [case.get("over"), case.get("selfe")]) if case["net"]["e"] else None
