"""C39  layouts"""
import math
import random

from fn import rand_cfg, rand_net, decorate, failed, prod  # noqa: F401

PID = "C39"
TRACE = "TraceLayout"
BAD = "BadLayout"
RULE = "distinct (network, arguments) with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 39)
    out = []
    while len(out) < (420 if run.tier == "quick" else 3600):
        fn = rng.choice(["force", "force", "force", "get", "draw"])
        cfg = rand_cfg(rng, asps=(1, 1, 2) if fn == "force" else (1, 1, 1, 2) if fn == "get" else (1,), noedges=(0, 0, -1, 100))
        if cfg["asp"] > 2:
            continue
        asp = cfg["asp"]
        jn = rand_net(rng, cfg, big=0.04, nnodes=(1, 2, 3, 4, 5) if asp == 1 else (1, 2, 3), nlayers=(1, 2, 3) if asp == 1 else (1, 2), weights=(1, 2, 3),
                      density=rng.choice([0, 0.2, 0.5, 0.8]), selfloops=False)
        nls = prod(jn["el"]) if cfg["full"] else [list(a) for a in jn["nl"]]
        if not nls:
            continue
        c = {"net": jn, "fn": fn}
        if fn == "force":
            al = rng.random() < 0.5
            keys = [[v] for v in jn["el"][0]] if al else nls
            box = rng.choice([[1000, 1000], [1000, 1000], [2000, 2000], [500, 2000], [3000, 1000]])
            c.update(al=al, box=box, iters=rng.choice([1, 1, 1, 1, 2, 5, 30]), nd=rng.choice([100, 200, 300, 500 // 2]), auto=rng.random() < 0.1)
            grid = [[k, x, y] for k in [0] for x in range(0, box[0] + 1, 200) for y in range(0, box[1] + 1, 200)]
            xy = rng.sample(grid, min(len(grid), len(keys)))
            how = rng.random()
            c["init"] = [[k, p[1] + rng.randrange(0, 60), p[2] + rng.randrange(0, 60)] for k, p in zip(keys, xy)]
            if how < 0.15 and c["init"]:
                c["init"] = rng.sample(c["init"], rng.randrange(0, len(c["init"])))
            fixn, fixnl = [], []
            if rng.random() < 0.35 and c["init"]:
                have = [i[0] for i in c["init"]]
                if al:
                    fixn = rng.sample(have, rng.randrange(1, len(have) + 1))
                elif rng.random() < 0.6:
                    fixnl = rng.sample(have, rng.randrange(1, len(have) + 1))
                else:
                    fixn = [[v] for v in sorted({a[0] for a in have}) if all(b in have for b in nls if b[0] == v)]
                    fixn = rng.sample(fixn, min(len(fixn), 2))
            c["fixn"], c["fixnl"] = fixn, fixnl
            c["boxform"] = rng.choice(["tuple", "list"]) if box[0] != box[1] else rng.choice(["tuple", "float"])
        else:
            c["al"] = rng.choice(["yes", "no", "auto"])
            mono = c["al"] == "yes" or (c["al"] == "auto" and cfg["kind"] == "mx")
            lays = ["random", "fr", "circular", "spring"] + (["shell", "spectral"] if len(jn["el"][0]) > 3 else [])
            c["layout"] = rng.choice(lays if mono and asp == 1 else ["random", "fr"])
            if fn == "draw" and rng.random() < 0.2:
                c["al"] = "yes"
                c["layout"] = rng.choice(["random", "fr", "circular", "spring"])
        c = decorate(rng, c, cfg, 0)
        if c["lab"][0] == "t":      # not as names of networks without aspects
            c["lab"][0] = "w"
        c["lab2"] = ["s"] + c["lab"][1:] if c["lab"][0] != "s" else ["j"] + c["lab"][1:]
        out.append(c)
    return out


def milli(v):
    n = float(v) * 1000
    if not math.isfinite(n) or abs(n) > 1e9:
        return -999983
    return int(round(n))


def force(case, lab, shuffle):
    import netlib
    import fn
    cs = dict(case, lab=lab)
    ctx = netlib.Ctx.of(cs)
    L = ctx.L
    jn = case["net"]
    if shuffle:
        r = random.Random(5)
        jn = dict(jn, el=[r.sample(x, len(x)) for x in jn["el"]], nl=r.sample(jn["nl"], len(jn["nl"])), e=r.sample(jn["e"], len(jn["e"])))
    net = fn.make(ctx, jn)
    al = case["al"]
    kw = {"alignedNodes": al, "iterations": case["iters"]}
    kw["nodeDist"] = "auto" if case["auto"] else case["nd"] / 1000.
    b = tuple(x / 1000. for x in case["box"])
    kw["boxSize"] = b if case["boxform"] == "tuple" else list(b) if case["boxform"] == "list" else b[0]
    init = {}
    for k, x, y in case["init"]:
        init[L.lab(0, k[0]) if al else L.nl(k)] = (x / 1000., y / 1000.)
    if al:
        kw["nodeCoords"] = dict(init)
    elif case["fixn"] and all([v] in case["fixn"] for v in {k[0] for k, x, y in case["init"]}) and len({tuple(k[:1]) for k, x, y in case["init"]}) == len(case["init"]):
        kw["nodeCoords"] = {k[0]: p for k, p in init.items()}
    else:
        kw["nodelayerCoords"] = dict(init)
    if case["fixn"]:
        kw["fixedNodes"] = set(L.lab(0, v[0]) for v in case["fixn"])
    if case["fixnl"]:
        kw["fixedNodeLayers"] = set(L.nl(a) for a in case["fixnl"])
    random.seed(case["id"])
    res = netlib.pymnet.visuals.layouts.get_fruchterman_reingold_multilayer_layout(net, **kw)
    fixed = True
    out = []
    for k, p in res.items():
        a = [L.atom(0, k)] if al else L.unl(k)
        f = (a[:1] in case["fixn"]) or a in case["fixnl"]
        if f and tuple(p) != tuple(init[k]):
            fixed = False
        out.append([a, milli(p[0]), milli(p[1])])
    return ctx, net, out, fixed


def run(case):
    import netlib
    import fn
    if case["fn"] == "force":
        ctx, net, res, fixed = force(case, case["lab"], False)
        other = []
        if case["iters"] <= 2 and len(case["init"]) == len(res):
            other = force(case, case["lab2"], True)[2]
        o = {"res": res, "fixed": fixed, "finite": all(v != -999983 for r in res for v in r[1:]), "other": other}
        if case["auto"]:        # a distance that is not a whole number of thousandths
            case = dict(case, iters=max(2, case["iters"]))
    else:
        ctx = netlib.Ctx.of(case)
        L = ctx.L
        net = fn.make(ctx, case["net"])
        al = {"yes": True, "no": False, "auto": None}[case["al"]]
        random.seed(case["id"])
        import numpy
        numpy.random.seed(case["id"])
        if case["fn"] == "get":
            n, nl = netlib.pymnet.visuals.layouts.get_layout(case["layout"], net, alignedNodes=al)
            o = {"n": [[[L.atom(0, k)], milli(p[0]), milli(p[1])] for k, p in n.items()],
                 "nl": [[L.unl(k), milli(p[0]), milli(p[1])] for k, p in nl.items()]}
            o["finite"] = all(v != -999983 for r in o["n"] + o["nl"] for v in r[1:])
        else:
            import matplotlib.pyplot as plt
            from checks import c38
            rat = c38.rat
            c38.rat = milli
            try:
                fig = netlib.pymnet.draw(net, layout=case["layout"], alignedNodes=al, defaultNodeSize=0.01, nodeSizeRule={}, layerLabelRule={})
                ax = fig.axes[0]
                g = c38.look(fig, ax)
                o = {"layers": [[y["z"]] for y in g["layers"]], "nodes": [{"p": y["p"]} for y in g["nodes"]], "lines": []}
                o["texts"] = []
                for t in ax.texts:
                    o["texts"].append(next((v for v in range(26) if str(L.lab(0, v)) == t.get_text()), -9))
                nl = len(case["net"]["el"][1])
                for l in ax.lines:
                    xs, ys, zs = l.get_data_3d()
                    p, q = [[milli(xs[i]), milli(ys[i]), milli(zs[i])] for i in (0, -1)]
                    if abs(zs[0] - zs[-1]) <= 1 and nl <= 2:
                        o["lines"].append({"p": p, "q": q})
                    elif nl <= 2:
                        o["lines"].append({"p": [-1, -1, -1], "q": q})
                if nl > 2:          # edges may be drawn in pieces
                    o["lines"] = [{"p": g["nodes"][0]["p"] if False else o["nodes"][0]["p"], "q": o["nodes"][0]["p"]}] if ax.lines else []
            finally:
                c38.rat = rat
                plt.close("all")
    o["after"] = netlib.proj_net(ctx, net)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case["net"], {k: v for k, v in case.items() if k not in ("obs", "net", "lab", "id")}]) if case["net"]["e"] else None
