"""C16  random permutation of the nodes of every layer"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C16"
TRACE = "TraceXform"
BAD = "BadRandomize"
RULE = "distinct networks with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 16)
    out = []
    for i in range(240 if run.tier == "quick" else 2000):
        cfg = rand_cfg(rng, kinds=("mx",), asps=(1,))
        jn = rand_net(rng, cfg, nnodes=(0, 1, 2, 3, 4, 5), nlayers=(1, 2, 3))
        if not cfg["full"]:
            jn["el"][0] = sorted(set(a[0] for a in jn["nl"]))
        out.append(decorate(rng, {"net": jn}, cfg, scaled=True))
    for i in range(16 if run.tier == "quick" else 60):    # how often every permutation is drawn
        cfg = rand_cfg(rng, kinds=("mx",), asps=(1,))
        jn = rand_net(rng, cfg, nnodes=(2, 3), nlayers=(1, 2), density=0.7)
        if not cfg["full"]:
            jn["el"][0] = sorted(set(a[0] for a in jn["nl"]))
        case = decorate(rng, {"net": jn, "seed": rng.randrange(10 ** 6)}, cfg)
        case["n"] = 180 * 6 ** len(jn["el"][1])     # at most 3! permutations per layer
        out.append(case)
    return out


def run(case):
    import netlib
    import fn
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    if "n" in case:
        random.seed(case["seed"])
        cnt = {}
        for _ in range(case["n"]):
            r = netlib.pymnet.transforms.randomize_nodes_by_layer(net)
            es = []
            for l in r.A:
                lay = tuple(ctx.L.unlayer(l))
                for a, b, w in r.A[l].edges:
                    a, b, w = (ctx.L.atom(0, a),) + lay, (ctx.L.atom(0, b),) + lay, ctx.V.num(w)
                    es += [(a, b, w)] if case["cfg"]["dir"] else [(a, b, w), (b, a, w)]
            k = tuple(sorted(es))
            cnt[k] = cnt.get(k, 0) + 1
        return fn.ok(case, {"counts": [[[[list(a), list(b), w] for a, b, w in k], v] for k, v in sorted(cnt.items())]})
    outs = []
    for rep in range(3):
        r = netlib.pymnet.transforms.randomize_nodes_by_layer(net)
        p = netlib.proj_net(ctx, r)
        # the observed network as a description of its own
        d = dict(case["cfg"])
        d.update(el=p["el"], nl=p["nl"] if not case["cfg"]["full"] else [],
                 e=[x for x in p["p"] if x[0][1:] == x[1][1:]])
        d["proj"] = p
        outs.append(d)
    return fn.ok(case, {"res": outs, "after": netlib.proj_net(ctx, net)})


def leaf_ok(p):
    return p[:2] != ["obs", "counts"]


def nontrivial(case, res):
    return str([case["net"], "n" in case]) if case["net"]["e"] else None
