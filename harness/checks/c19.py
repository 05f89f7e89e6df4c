"""C19  overlap degrees"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C19"
TRACE = "TraceDiag"
BAD = "BadOverlap"
RULE = "distinct networks with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 19)
    out = []
    for i in range(240 if run.tier == "quick" else 2000):
        cfg = rand_cfg(rng, kinds=("mx",), asps=(1,), dirs=(False,))
        jn = rand_net(rng, cfg, big=0.06, nnodes=(1, 2, 3, 4, 5), nlayers=(1, 2, 3, 4), weights=(1, 1, 2, 3, -2))
        if not cfg["full"]:
            jn["el"][0] = sorted(set(a[0] for a in jn["nl"]))
        c = decorate(rng, {"net": jn}, cfg, scaled=True)
        out.append(c)
    return out


def run(case):
    import netlib
    import fn
    from labels import num
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    r = netlib.pymnet.diagnostics.overlap_degs(net)
    o = {"res": [[[ctx.L.atom(1, l) for l in k], [[ctx.L.atom(0, n), num(d)] for n, d in v.items()]] for k, v in r.items()],
         "after": netlib.proj_net(ctx, net)}
    return fn.ok(case, o)


def nontrivial(case, res):
    return str(case["net"]) if case["net"]["e"] else None
