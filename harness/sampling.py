"""Inputs of the subgraph sampling checks."""
import itertools

from fn import rand_cfg, rand_net, decorate, cat, ordi, none  # noqa: F401

ANY = -1


def adj_of(jn):
    """neighbours by edges given explicitly (couplings are left out; only used to choose inputs)"""
    return None


def sample_net(rng, small=False):
    kind = rng.choice(["ml", "ml", "ml", "mx"])
    cfg = rand_cfg(rng, kinds=(kind,), asps=(1,), dirs=(False,), fulls=(True, False, False), noedges=(0, 0, -1) if not small else (0,),
                   coups=[cat(1), cat(2), ordi(1), none(0)])
    while True:
        jn = rand_net(rng, cfg, nnodes=(2, 3, 4, 5) if not small else (2, 3, 4), nlayers=(1, 2, 2, 3) if not small else (2,),
                      weights=(1, 2, 0), density=rng.choice([0.2, 0.4, 0.6, 0.8] if not small else [0.5, 0.7, 0.9]),
                      memb=None if not small else rng.choice([0.8, 1.0]), selfloops=rng.random() < 0.2, layer_pool=4)
        if cfg["full"] or jn["nl"]:
            break
    return cfg, jn


def nls_of(cfg, jn):
    return [list(x) for x in itertools.product(*jn["el"])] if cfg["full"] else jn["nl"]


def combos(n):
    return [list(c) for k in range(2, n + 1) for c in itertools.combinations(range(1, n + 1), k)]


def requirement(rng, cfg, jn, k=None, intstyle=0.2):
    """sizes and intersections of some induced subgraph, sometimes changed"""
    nls = nls_of(cfg, jn)
    k = k or rng.randrange(1, min(3, len(jn["el"][1])) + 1)
    layers = rng.sample(jn["el"][1], min(k, len(jn["el"][1])))
    nodes = rng.sample(jn["el"][0], rng.randrange(1, min(4, len(jn["el"][0])) + 1))
    on = [set(a[0] for a in nls if a[1] == y and a[0] in nodes) for y in layers]
    if not all(on):
        return None
    sizes = [len(s) for s in on]
    inter = [[c, len(set.intersection(*[on[i - 1] for i in c]))] for c in combos(len(layers))]
    typ = rng.choice(["strict", "strict", "less_or_equal"])
    style = "list"
    if typ == "less_or_equal":
        for q in inter:
            q[1] += rng.choice([0, 0, 1, -1]) if q[1] else rng.choice([0, 1])
    elif inter and rng.random() < 0.15:
        q = rng.choice(inter)
        q[1] = max(0, q[1] + rng.choice([-1, 1]))
    if inter and rng.random() < 0.35:
        for q in rng.sample(inter, rng.randrange(1, len(inter) + 1)):
            q[1] = ANY
    if inter and rng.random() < intstyle:
        style = "int"
        for q in inter[:-1]:
            q[1] = ANY
        if inter[-1][1] == ANY:
            inter[-1][1] = rng.randrange(0, 2)
    if rng.random() < 0.1:
        sizes[rng.randrange(len(sizes))] += 1
    anys = any(q[1] == ANY for q in inter)
    if typ == "strict" and not anys:
        nn = sum(sizes)
        for c, v in inter:
            nn += v if len(c) % 2 else -v
    else:
        nn = len(set.union(*on)) + rng.choice([0, 0, 0, 1])
    if nn < 1 or nn > 5:
        return None
    return {"sizes": sizes, "inter": inter, "type": typ, "nn": nn, "nlay": len(layers), "style": style, "basis": [nodes, layers]}


def kwargs(r):
    """arguments of the sampling functions for a requirement"""
    if r["req"] == "relaxed":
        return {"nnodes": r["nn"], "nlayers": r["nlay"]}
    inter = [None if v == ANY else v for c, v in r["inter"]]
    kw = {"sizes": list(r["sizes"])}
    if r["style"] == "int":
        kw["intersections"] = inter[-1]
        kw["nnodes"] = r["nn"]
    else:
        kw["intersections"] = inter
        if None in inter or r["type"] == "less_or_equal":
            kw["nnodes"] = r["nn"]
    if r["type"] != "strict":
        kw["intersection_type"] = r["type"]
    return kw
