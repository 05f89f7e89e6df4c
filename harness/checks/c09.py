"""C09  supra-adjacency matrix"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C09"
TRACE = "TraceSupra"
BAD = "BadSupra"
RULE = "distinct random networks with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 9)
    out = []
    for i in range(500 if run.tier == "quick" else 5000):
        cfg = rand_cfg(rng, asps=(0, 0, 1, 1, 2))
        jn = rand_net(rng, cfg, big=0.03, nnodes=(0, 1, 2, 3, 4) if cfg["asp"] < 2 else (1, 2, 3), nlayers=(1, 2, 3) if cfg["asp"] < 2 else (1, 2))
        out.append(decorate(rng, {"net": jn}, cfg, 0, True))
    return out


def run(case):
    import netlib
    import fn
    from labels import num
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])

    def proj(res):
        m, rows = res
        rows = [[ctx.L.atom(k, x) for k, x in enumerate(r if ctx.asp > 0 else (r,))] for r in rows]
        return {"rows": rows, "m": [[ctx.V.num(v) for v in r] for r in m.tolist()] if len(rows) else []}
    o = {"full": proj(net.get_supra_adjacency_matrix()),
         "intra": proj(net.get_supra_adjacency_matrix(includeCouplings=False)),
         "fn": proj(netlib.pymnet.supra_adjacency_matrix(net)),
         "fnintra": proj(netlib.pymnet.supra_adjacency_matrix(net, includeCouplings=False)),
         "after": netlib.proj_net(ctx, net)}
    return fn.ok(case, o)


def nontrivial(case, res):
    return str(case["net"]) if case["net"]["e"] else None


def leaf_ok(path):
    return "m" in path or "after" in path
