"""C12  relabel and normalize"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C12"
TRACE = "TraceXform"
BAD = "BadRelabel"
RULE = "distinct (network, maps or options) with at least one edge in the network"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 12)
    out = []
    for i in range(640 if run.tier == "quick" else 6000):
        cfg = rand_cfg(rng, asps=(0, 1, 1, 2, 2))
        asp = cfg["asp"]
        jn = rand_net(rng, cfg, big=0.03, nnodes=(0, 1, 2, 3, 4, 5) if asp < 2 else (1, 2, 3), nlayers=(1, 2, 3) if asp < 2 else (1, 2))
        for k, cp in enumerate(cfg["coup"]):    # the coupling network is over the layers of the network
            if cp["t"] == "network":
                cp["e"] = [x for x in cp["e"] if x[0] in jn["el"][k + 1] and x[1] in jn["el"][k + 1]]
        if rng.random() < 0.65:
            maps = []
            for k in range(asp + 1):
                r = rng.random()
                els = jn["el"][k]
                if r < 0.2:
                    m = []
                elif r < 0.6:   # permutation of some of the elements
                    s = [a for a in els if rng.random() < 0.7]
                    m = list(zip(s, rng.sample(s, len(s))))
                else:           # new names for some, avoiding the names kept
                    s = [a for a in els if rng.random() < 0.7]
                    free = [a for a in range(12) if a not in els or a in s]
                    m = list(zip(s, rng.sample(free, len(s))))
                if rng.random() < 0.15:   # names the network does not have
                    m.append((15, 16))
                maps.append([list(x) for x in m])
            c = decorate(rng, {"net": jn, "fn": "relabel", "maps": maps, "form": rng.randrange(4)}, cfg, scaled=True)
        else:
            c = decorate(rng, {"net": jn, "fn": "normalize", "nstart": rng.choice([0, 0, 1, 5]), "lstart": rng.choice([0, 0, 1, 3]),
                               "nti": rng.choice([None, True, False]), "lti": rng.choice([None, True, False])}, cfg, 0, True)
            c["nret"] = 1 + (c["nti"] is not None) + (c["lti"] is not None and 1)
        out.append(c)
    return out


def run(case):
    import copy
    import netlib
    import fn
    pymnet = netlib.pymnet
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    L = ctx.L
    if case["fn"] == "relabel":
        maps = [{L.lab(k, a): L.lab(k, b) for a, b in m} for k, m in enumerate(case["maps"])]
        f = case["form"]
        kw = {}
        if maps[0] or f % 2:
            kw["nodeNames"] = maps[0]
        lays = maps[1:]
        if ctx.asp == 1 and f in (0, 1):
            kw["layerNames"] = lays[0]
        elif any(lays) or f == 3:
            if f == 2:
                while lays and not lays[-1]:
                    lays.pop()
            kw["layerNames"] = lays if f != 1 else tuple(lays)
        keep = copy.deepcopy(kw)
        res = pymnet.transforms.relabel(net, **kw)
        return fn.ok(case, {"res": netlib.proj_net(ctx, res), "after": netlib.proj_net(ctx, net), "argsok": int(keep == kw)})
    kw = {}
    if case["nstart"]:
        kw["nodeStart"] = case["nstart"]
    if case["lstart"]:
        kw["layerStart"] = case["lstart"]
    r = pymnet.transforms.normalize(net, nodesToIndices=case["nti"], layersToIndices=case["lti"], **kw)
    tup = r if isinstance(r, tuple) else (r,)
    # the result has integers as names
    ci = netlib.Ctx(case["cfg"], ["i"] * (ctx.asp + 1), case["nek"], case["wfloat"], case["scale"])
    maps = []

    def add(k, d, forward):
        prs = []
        for a, b in d.items():
            if not forward:
                a, b = b, a
            prs.append([L.atom(k, a), b if isinstance(b, int) else -9])
        maps.append([k + 1, prs])
    rest = list(tup[1:])
    if case["nti"] is not None and rest:
        add(0, rest.pop(0), case["nti"])
    if case["lti"] is not None and rest:
        ls = rest.pop(0)
        if ctx.asp == 1:
            ls = [ls]
        for k, d in enumerate(ls):
            add(k + 1, d, case["lti"])
    return fn.ok(case, {"res": netlib.proj_net(ci, tup[0]), "after": netlib.proj_net(ctx, net), "maps": maps, "nret": len(tup)})


def nontrivial(case, res):
    return str([case.get(k) for k in ("net", "fn", "maps", "nti", "lti", "nstart", "lstart")]) if case["net"]["e"] else None
