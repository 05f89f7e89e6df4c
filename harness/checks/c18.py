"""C18  degree distributions and densities"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C18"
TRACE = "TraceDiag"
BAD = "BadDegs"
RULE = "distinct networks with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 18)
    out = []
    for i in range(480 if run.tier == "quick" else 5000):
        cfg = rand_cfg(rng, asps=(0, 1, 1, 2, 2))
        asp = cfg["asp"]
        jn = rand_net(rng, cfg, big=0.04, nnodes=(0, 1, 2, 3, 4, 5) if asp < 2 else (1, 2, 3), nlayers=(1, 2, 3) if asp < 2 else (1, 2),
                      selfloops=False)
        c = decorate(rng, {"net": jn}, cfg, scaled=True)
        if c["lab"][0] == "t" and asp == 0:
            c["lab"][0] = "s"
        out.append(c)
    return out


def run(case):
    import netlib
    import fn
    from labels import num, rat
    D = netlib.pymnet.diagnostics
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])

    def nodes(c, d):
        return [[c.L.unl(k), num(v)] for k, v in d.items()]

    def dist(d):
        return [[num(k), num(v)] for k, v in d.items()]
    o = {"nodes": nodes(ctx, D.degs(net, degstype="nodes")), "dist": dist(D.degs(net)),
         "density": rat(D.density(net)), "layers": []}
    if case["cfg"]["kind"] == "mx":
        c0 = netlib.restricted(ctx, [0])
        dn = D.multiplex_degs(net, degstype="nodes")
        dd = D.multiplex_degs(net)
        de = D.multiplex_density(net)
        for lay in dn:
            o["layers"].append({"l": ctx.L.unlayer(lay), "nodes": nodes(c0, dn[lay]), "dist": dist(dd[lay]),
                                "density": rat(de[lay])})
    o["after"] = netlib.proj_net(ctx, net)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str(case["net"]) if case["net"]["e"] else None
