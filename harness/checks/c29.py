"""C29  clustering coefficients of monoplex networks"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C29"
TRACE = "TraceCC"
BAD = "BadMono"
RULE = "distinct networks with at least one triangle or triple"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 29)
    out = []
    for i in range(600 if run.tier == "quick" else 6000):
        cfg = rand_cfg(rng, kinds=("ml",), asps=(0,), dirs=(False,), noedges=(0, 0, -1, 100))
        cubes = rng.random() < 0.6
        jn = rand_net(rng, cfg, big=0.04, nnodes=(0, 1, 2, 3, 4, 5, 6, 7, 8, 8), node_pool=9, selfloops=False, weights=(1,) if rng.random() < 0.2 else (1, 8, 27) if cubes else (1, 2, 3, 5),
                      density=rng.choice([0, 0.2, 0.3, 0.5, 0.6, 0.8, 1.0]))
        c = decorate(rng, {"net": jn, "undef": rng.choice([0, -777000000])}, cfg)
        if c["lab"][0] == "t":
            c["lab"][0] = "s"
        out.append(c)
    return out


def run(case):
    import netlib
    import fn
    from ccnum import fx, MARK
    from pymnet import cc
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    kw = {"undefReturn": MARK} if case["undef"] else {}
    o = {"nodes": []}
    for n in list(net):
        a = ctx.L.atom(0, n)
        o["nodes"].append([[a]] + [fx(f(net, n, **kw)) for f in (cc.lcc, cc.cc_zhang, cc.cc_barrat, cc.cc_onnela)])
    o["gzhang"] = fx(cc.gcc_zhang(net))
    o["glcc"] = fx(cc.gcc_from_lcc(net, cc.lcc))
    o["trans"] = fx(trans(cc, net))
    o["after"] = netlib.proj_net(ctx, net)
    return fn.ok(case, o)


def trans(cc, net):
    """global clustering coefficient from the counts of all nodes"""
    num = den = 0
    for n in net:
        t, d = cc.cc_num_den(net, n)
        num, den = num + t, den + d
    return num / float(den) if den else None


def nontrivial(case, res):
    return str(case["net"]) if len(case["net"]["e"]) > 1 else None
