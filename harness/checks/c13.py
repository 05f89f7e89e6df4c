"""C13  thresholding"""
import random

from fn import rand_cfg, rand_net, decorate, failed, cat, ordi, none, netc  # noqa: F401

PID = "C13"
TRACE = "TraceXform"
BAD = "BadThreshold"
RULE = "distinct (network, rule, threshold) with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 13)
    out = []
    for i in range(560 if run.tier == "quick" else 5000):
        cfg = rand_cfg(rng, asps=(0, 1, 1, 2), coups=[cat(1), ordi(2), none(0), none(0), none(1), netc([[0, 1, 2]])])
        asp = cfg["asp"]
        for c in cfg["coup"]:
            if c["t"] == "network" and cfg["dir"]:
                c["e"] = c["e"][:1]
        jn = rand_net(rng, cfg, big=0.04, nnodes=(0, 1, 2, 3, 4, 5) if asp < 2 else (1, 2, 3), nlayers=(1, 2, 3) if asp < 2 else (1, 2))
        out.append(decorate(rng, {"net": jn, "rule": rng.choice([">=", ">=", "<=", ">", "<"]), "t": rng.choice([-2, 0, 1, 2, 3, 4])}, cfg, scaled=True))
    return out


def run(case):
    import netlib
    import fn
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    if case["rule"] == ">=" and case["id"] % 2:
        res = netlib.pymnet.transforms.threshold(net, case["t"] * ctx.scale)
    else:
        res = netlib.pymnet.transforms.threshold(net, case["t"] * ctx.scale, method=case["rule"])
    return fn.ok(case, {"res": netlib.proj_net(ctx, res), "after": netlib.proj_net(ctx, net)})


def nontrivial(case, res):
    return str([case[k] for k in ("net", "rule", "t")]) if case["net"]["e"] else None
