"""C14  enumeration of subnetworks"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C14"
TRACE = "TraceXform"
BAD = "BadIter"
RULE = "distinct (network, removable aspects, edge removal) with more than one subnetwork"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 14)
    out = []
    while len(out) < (240 if run.tier == "quick" else 1500):
        cfg = rand_cfg(rng, asps=(0, 1, 1, 2))
        asp = cfg["asp"]
        jn = rand_net(rng, cfg, nnodes=(1, 2, 3, 4) if asp == 0 else (1, 2, 3), nlayers=(1, 2) if asp < 2 else (1, 2),
                      density=rng.choice([0.2, 0.5]), memb=1.0 if rng.random() < 0.3 else None)
        if not cfg["full"]:
            jn["el"][0] = sorted(set(a[0] for a in jn["nl"]))
            if not jn["el"][0]:
                continue
        red = rng.random() < 0.6
        if len(jn["e"]) > 4 and red:
            jn["e"] = jn["e"][:4]
        rem = sorted(rng.sample(range(asp + 1), rng.randrange(0, asp + 2)))
        out.append(decorate(rng, {"net": jn, "removable": rem, "redges": red}, cfg, scaled=True))
    return out


def run(case):
    import netlib
    import fn
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    kw = {}
    if case["removable"] or case["id"] % 2:
        kw["remove_elayers"] = list(case["removable"])
    if not case["redges"] or case["id"] % 3:
        kw["remove_edges"] = case["redges"]
    res = []
    for i, s in enumerate(netlib.pymnet.transforms.subnet_iter(net, **kw)):
        res.append(netlib.proj_net(ctx, s))
        if i > 2000:
            break
    return fn.ok(case, {"res": res, "after": netlib.proj_net(ctx, net)})


def nontrivial(case, res):
    return str([case[k] for k in ("net", "removable", "redges")]) if len(res["obs"].get("res", [])) > 1 else None


def leaf_ok(path):
    return "after" in path or "ne" not in path and "deg" not in path
