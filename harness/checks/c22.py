"""C22  Erdos-Renyi models"""
import random

from fn import failed, cat, ordi, none  # noqa: F401

PID = "C22"
TRACE = "TraceModels"
BAD = "BadER"
RULE = "distinct (function, parameters); for the counting cases every possible outcome must occur about as often as its probability says"
PAIRS = {n: [[i, j] for i in range(n) for j in range(i + 1, n)] for n in range(8)}


def models(tier):
    return []


def layer_spec(rng, n):
    m = rng.choice(["p", "p0", "p1", "edges"])
    tot = n * (n - 1) // 2
    return m, (rng.choice([0, tot, rng.randrange(tot + 1)]) if m == "edges" else 0)


def cases(run):
    rng = random.Random(run.seed * 31 + 22)
    out = []
    big = run.tier != "quick"
    for i in range(260 if not big else 3000):
        f = rng.choice(["single", "er", "er", "erlist", "erlist", "partial", "er_partial", "er_multilayer"])
        n = rng.choice([0, 1, 2, 3, 4, 5, 6]) if i % 12 else rng.randrange(8, 13)
        c = {"fn": f, "tiny": rng.random() < 0.4, "seed": rng.randrange(1 << 30), "nl": [], "coup": [], "full": True, "lab": rng.choice(["i", "s", "j", "t"])}
        if f == "single" and rng.random() < 0.5:
            c.update(noedge=-1, nek=rng.choice(["int", "none", "inf", "str"]))
        if f in ("single", "er"):
            m, e = layer_spec(rng, n)
            c.update(kind="ml", el=[list(range(n))], layers=[{"l": [], "nodes": list(range(n)), "mode": m, "m": e}])
        elif f == "er_multilayer":
            L = rng.choice([1, 2, 3])
            n = rng.choice([0, 1, 2, 3, 4])
            c.update(kind="ml", el=[list(range(n)), list(range(L))], mode=rng.choice(["p", "p0", "p1", "p1"]), named=rng.random() < 0.5,
                     rw=rng.random() < 0.4)
        else:
            L = rng.choice([1, 2, 3]) if i % 15 else rng.randrange(4, 7)
            modes = ("p", "p0", "p1") if f == "er_partial" or rng.random() < 0.6 else ("edges",)
            lays = []
            for k in range(L):
                ns = list(range(n)) if f == "erlist" else sorted(rng.sample(range(max(6, n)), rng.randrange(0, max(6, n))))
                rng.shuffle(ns)
                t = len(ns) * (len(ns) - 1) // 2
                m = rng.choice(modes)
                lays.append({"l": [k], "nodes": ns, "mode": m, "m": rng.choice([0, t, rng.randrange(t + 1)]) if m == "edges" else 0})
            if f == "partial" and rng.random() < 0.4:    # one number for all layers
                e = min(len(y["nodes"]) * (len(y["nodes"]) - 1) // 2 for y in lays)
                m = modes[0] if modes[0] == "edges" else rng.choice(modes)
                for y in lays:
                    y.update(mode=m, m=e if m == "edges" else 0)
                c["scalar"] = True
            full = f == "erlist"
            coup = rng.choice([cat(1), cat(2), ordi(3), none()]) if f == "er_partial" else cat(1)
            c.update(kind="mx", full=full, coup=[coup], layers=lays,
                     el=[list(range(n)) if full else sorted(set(x for y in lays for x in y["nodes"])), list(range(L))],
                     nl=[] if full else [[x] + y["l"] for y in lays for x in y["nodes"]])
            if full:
                c["lab"] = "i"
        if f in ("er", "er_multilayer"):
            c["lab"] = "i"
        out.append(c)
    N = 2000 if not big else 20000
    for fam in (dict(family="p", n0=3, a=1, b=2), dict(family="p", n0=3, a=1, b=4), dict(family="p", n0=3, a=3, b=4), dict(family="p", n0=4, a=1, b=2),
                dict(family="edges", n0=3, m=1), dict(family="edges", n0=4, m=2), dict(family="edges", n0=4, m=5), dict(family="edges", n0=5, m=1)):
        for how in ("single", "layer"):
            n = N * (2 if fam.get("b") == 4 or fam["n0"] == 4 and fam["family"] == "p" else 1)
            out.append(dict(fam, fn="counts", how=how, n=n, pairs=PAIRS[fam["n0"]], seed=rng.randrange(1 << 30)))
    # two nodes on two layers: the pairs are coded by the node-layer numbers 2*layer+node
    out.append({"fn": "counts", "how": "multilayer", "family": "p", "n0": 2, "a": 1, "b": 2, "n": N,
                "pairs": [[0, 1], [0, 3], [1, 2], [2, 3]], "seed": rng.randrange(1 << 30)})
    return out


PS = {"p": 0.4, "p0": 0, "p1": 1}
TINY = (1e-12, 1e-17, 1e-300)    # no link in any run that will ever be seen


def run(case):
    import netlib
    import fn
    from pymnet import models
    pymnet = netlib.pymnet
    f = case["fn"]
    if f == "counts":
        n0 = case["n0"]
        kw = {"p": case["a"] / float(case["b"])} if case["family"] == "p" else {"edges": case["m"]}

        def draw():
            if case["how"] == "single":
                return models.er(n0, **kw)
            if case["how"] == "multilayer":
                return models.er_multilayer(2, 2, kw["p"])
            return models.er(n0, **{k: [v] for k, v in kw.items()}).A[0]

        def pairs(net):
            if case["how"] == "multilayer":
                return [(2 * e[2] + e[0], 2 * e[3] + e[1]) for e in net.edges]
            return [(e[0], e[1]) for e in net.edges]
        return fn.ok(case, {"counts": fn.counted(draw, pairs, case["n"], case["seed"])})
    random.seed(case["seed"])
    asp = len(case["el"]) - 1
    P = dict(PS, p0=TINY[case["seed"] % 3]) if case["tiny"] else PS
    ctx = fn.ident_ctx(case["kind"], asp, case["coup"], case["full"], lab=[case["lab"]] + ["i"] * asp,
                       noedge=case.get("noedge", 0), nek=case.get("nek", "int"))
    o = {}
    if f == "er_multilayer":
        n, lays = len(case["el"][0]), case["el"][1]
        kw = {"randomWeights": True} if case["rw"] else {}
        net = models.er_multilayer(n, list(lays) if case["named"] else len(lays), P[case["mode"]], **kw)
        ws = [e[-1] for e in net.edges]
        o["weights"] = int(all(0 < w <= 1 for w in ws) and (not case["rw"] or len(ws) < 3 or len(set(ws)) > 1))
        if case["rw"]:
            for e in list(net.edges):
                net[e[:-1]] = 1
    elif f == "single":
        y = case["layers"][0]
        net = pymnet.MultilayerNetwork(aspects=0, noEdge=ctx.V.noedge_py)
        ns = [ctx.L.lab(0, a) for a in y["nodes"]]
        if case["lab"] == "t":      # a monoplex network cannot have tuples as nodes
            ns = list(range(len(ns)))
            ctx = fn.ident_ctx("ml", 0, noedge=case.get("noedge", 0), nek=case.get("nek", "int"))
        if y["mode"] == "edges":
            models.single_layer_er(net, ns, edges=y["m"])
        else:
            models.single_layer_er(net, ns, p=P[y["mode"]])
    elif f == "er":
        y = case["layers"][0]
        net = models.er(len(y["nodes"]), **({"edges": y["m"]} if y["mode"] == "edges" else {"p": P[y["mode"]]}))
    else:
        ys = case["layers"]
        if case["lab"] == "t":
            ctx = fn.ident_ctx("mx", 1, case["coup"], case["full"])
        lists = [[ctx.L.lab(0, a) for a in y["nodes"]] for y in ys]
        if f == "er_partial":
            k = case["coup"][0]
            cp = {} if k["t"] == "categorical" and k["w"] == 1 else {"couplings": (k["t"], k["w"])}
            net = models.er_partially_interconnected(lists, [P[y["mode"]] for y in ys], **cp)
        else:
            n = len(case["el"][0]) if f == "erlist" else lists
            if ys[0]["mode"] == "edges":
                v = [y["m"] for y in ys]
                net = models.er(n, edges=v[0] if case.get("scalar") else v)
            else:
                v = [P[y["mode"]] for y in ys]
                net = models.er(n, p=v[0] if case.get("scalar") else v)
    o["res"] = netlib.proj_net(ctx, net)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case.get(k) for k in ("fn", "layers", "el", "mode", "family", "n0", "a", "m", "how")])


def leaf_ok(path):
    return "counts" not in path or path[-1] != 1
