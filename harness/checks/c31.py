"""C31  clustering coefficients of multiplex networks from the literature"""
import random

from fn import rand_cfg, rand_net, decorate, failed, cat, ordi, none  # noqa: F401

PID = "C31"
TRACE = "TraceCC"
BAD = "BadMulti"
RULE = "distinct networks with at least two edges"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 31)
    out = []
    while len(out) < (300 if run.tier == "quick" else 3000):
        cfg = rand_cfg(rng, kinds=("mx",), asps=(1,), dirs=(False,), coups=[cat(1), cat(2), ordi(1), none(0)], noedges=(0, 0, -1, 100))
        jn = rand_net(rng, cfg, big=0.04, nnodes=(1, 2, 3, 4, 4, 5), nlayers=(1, 2, 3, 3, 4), weights=rng.choice([(1,), (1, 2, 3)]),
                      density=rng.choice([0.2, 0.5, 0.6, 0.8, 1.0]))
        c = decorate(rng, {"net": jn, "undef": rng.choice([0, -777000000])}, cfg)
        out.append(c)
    return out


def run(case):
    import netlib
    import fn
    from ccnum import fx, MARK
    from pymnet import cc, transforms
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    kw = {"undefReturn": MARK} if case["undef"] else {}
    agg = transforms.aggregate(net, 1)
    unit = all(e[2] == 1 for e in case["net"]["e"])
    nl = len(net.get_layers())
    o = {"nodes": []}
    for n in list(net):
        y = {"n": ctx.L.atom(0, n)}
        y["barrett"] = [["anet", fx(cc.cc_barrett(net, n, agg))], ["optimized", fx(cc.cc_barrett_optimized(net, n, agg))],
                        ["explicit", fx(cc.cc_barrett_explicit(net, n))]]
        y["brodka"] = [[1, fx(cc.lcc_brodka(net, n))], [-1, fx(cc.lcc_brodka(net, n, threshold="all"))]]
        for t in range(1, nl + 2):
            y["brodka"].append([t, fx(cc.lcc_brodka(net, n, threshold=t))])
            if unit:
                y["brodka"].append([t, fx(cc.lcc_brodka(net, n, anet=agg, threshold=t))])
        y["bat1"] = [fx(cc.lcc_battiston1(net, n, **kw))] if case["cfg"]["full"] and nl > 1 else []
        y["bat2"] = [fx(cc.lcc_battiston2(net, n, **kw))] if case["cfg"]["full"] else []
        y["criado"] = [fx(cc.lcc_criado(net, n, **kw)), fx(cc.lcc_criado(net, n, anet=agg, **kw))]
        o["nodes"].append(y)
    o["after"] = netlib.proj_net(ctx, net)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str(case["net"]) if len(case["net"]["e"]) > 1 else None
