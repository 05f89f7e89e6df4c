"""C27  sampling probabilities of induced subgraphs"""
import random

from fn import failed, decorate  # noqa: F401

PID = "C27"
TRACE = "TraceSampling"
BAD = "BadProb"
CASE_LIMIT = 120
RULE = "distinct (network, requirements, probabilities) for which at least one subgraph is found"


def models(tier):
    return []


def cases(run):
    import sampling as S
    rng = random.Random(run.seed * 31 + 27)
    out = []
    while len(out) < (64 if run.tier == "quick" else 300):
        cfg, jn = S.sample_net(rng, small=True)
        if rng.random() < 0.35:
            cfg, jn, r = chain(rng)
        elif rng.random() < 0.75:
            r = {"req": "relaxed", "nn": rng.randrange(1, min(3, len(jn["el"][0])) + 1), "nlay": rng.randrange(1, 3)}
        else:
            r = S.requirement(rng, cfg, jn)
            if r is None:
                continue
            del r["basis"]
            r["req"] = "sizes"
        d = r["nn"] + r["nlay"] - 1
        p = [[1, 1]] * d
        for i in rng.sample(range(d), min(d, rng.choice([1, 1, 2, 3]))):
            p[i] = rng.choice([[1, 2], [1, 2], [2, 3], [1, 3], [0, 1]])
        num = den = 1
        for a, b in p:
            num *= a
            den *= b
        if 9 * num < den and num:
            continue
        n = 700 if num * 3 >= den else 2200
        c = decorate(rng, dict(r, net=jn, p=p, num=num, den=den, n=n, seed=rng.choice([0, rng.randrange(1 << 30)]), copy=rng.random() < 0.5), cfg)
        out.append(c)
    return out


def chain(rng):
    """a single node on many layers or many nodes on a layer, with few edges"""
    from fn import ml_cfg
    nn, nl = rng.choice([(1, 4), (1, 3), (4, 1), (3, 1), (2, 3), (1, 5)])
    cfg = ml_cfg(1, False, False, 0)
    nls = [[i, l] for i in range(nn) for l in range(nl)]
    e = []
    for k in range(1, len(nls)):
        e.append([nls[k], nls[rng.choice([k - 1, rng.randrange(k)])], 1])
    jn = dict(cfg, el=[list(range(nn)), list(range(nl))], nl=nls, e=e)
    return cfg, jn, {"req": "relaxed", "nn": nn, "nlay": nl}


def run(case):
    import netlib
    import fn
    import sampling as S
    from pymnet.sampling import esu
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    kw = dict(S.kwargs(case), p=[a / float(b) for a, b in case["p"]], copy_network=case["copy"])
    cnt, twice = {}, 0
    for i in range(case["n"]):
        res = []
        esu.sample_multilayer_subgraphs_esu(net, res, seed=case["seed"] + i, **kw)
        ks = [(tuple(sorted(ctx.L.atom(0, x) for x in a)), tuple(sorted(ctx.L.atom(1, x) for x in b))) for a, b in res]
        twice += len(ks) - len(set(ks))
        for k in ks:
            cnt[k] = cnt.get(k, 0) + 1
    seeded = 1
    for i in range(20):
        two = []
        for _ in range(2):
            res = []
            esu.sample_multilayer_subgraphs_esu(net, res, seed=case["seed"] + i, **kw)
            two.append(sorted((sorted(map(str, a)), sorted(map(str, b))) for a, b in res))
        seeded = seeded and int(two[0] == two[1])
    return fn.ok(case, {"counts": [[list(a), list(b), v] for (a, b), v in sorted(cnt.items())], "twice": twice, "seeded": seeded})


def nontrivial(case, res):
    if not res["ok"] or not res["obs"]["counts"]:
        return None
    return str([case.get(k) for k in ("net", "req", "sizes", "inter", "type", "nn", "nlay", "p")])


def leaf_ok(path):
    return "counts" not in path or path[-1] != 2
