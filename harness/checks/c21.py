"""C21  isomorphism decisions and mappings"""
import copy
import random

from fn import rand_cfg, rand_net, decorate, failed, ml_cfg  # noqa: F401

PID = "C21"
TRACE = "TraceIso"
BAD = "BadIso"
RULE = "distinct (pair of networks, allowed aspects) with at least one edge; the second network is a relabeled copy, a near miss or another random network"


def models(tier):
    return []


def permuted(rng, jn, cfg, aspects):
    """jn with the elements of the given aspects permuted or renamed"""
    maps = []
    for k in range(cfg["asp"] + 1):
        els = jn["el"][k]
        if k in aspects:
            tgt = rng.sample(range(6), len(els)) if rng.random() < 0.3 else rng.sample(els, len(els))
        else:
            tgt = els
        maps.append(dict(zip(els, tgt)))
    f = lambda a: [maps[k][x] for k, x in enumerate(a)]
    r = copy.deepcopy(jn)
    r["el"] = [[maps[k][x] for x in e] for k, e in enumerate(jn["el"])]
    for e in r["el"]:
        rng.shuffle(e)
    r["nl"] = [f(a) for a in jn["nl"]]
    rng.shuffle(r["nl"])
    r["e"] = [[f(a), f(b), w] for a, b, w in jn["e"]]
    rng.shuffle(r["e"])
    return r


def tweak(rng, jn, cfg):
    r = copy.deepcopy(jn)
    nls = r["nl"] if not cfg["full"] else None
    q = rng.randrange(4)
    if q == 1 and rng.random() < 0.5:        # another element, without node-layers unless they are all there
        k = rng.randrange(cfg["asp"] + 1)
        r["el"][k].append(min(x for x in range(9) if x not in r["el"][k]))
    elif q == 0 and r["e"]:
        r["e"].pop(rng.randrange(len(r["e"])))
    elif r["e"]:
        # move one end of an edge to another node-layer (same layers)
        i = rng.randrange(len(r["e"]))
        a, b, w = r["e"].pop(i)
        cand = [[n] + b[1:] for n in r["el"][0] if [n] + b[1:] not in (a, b)]
        cand = [c for c in cand if nls is None or c in nls]
        cand = [c for c in cand if not any((x[0] == a and x[1] == c) or (x[0] == c and x[1] == a) for x in r["e"])]
        if cand:
            r["e"].append([a, rng.choice(cand), w])
    return r


def tight(rng, jn, cfg):
    """sometimes: only elements with node-layers"""
    if not cfg["full"] and rng.random() < 0.5:
        jn["el"] = [sorted(set(a[k] for a in jn["nl"])) for k in range(cfg["asp"] + 1)]
    return jn


def cases(run):
    rng = random.Random(run.seed * 31 + 21)
    out = []
    while len(out) < (400 if run.tier == "quick" else 3000):
        cfg = rand_cfg(rng, asps=(0, 1, 1, 1, 2), dirs=(False,), coups=[{"t": "categorical", "w": 1, "form": 0}, {"t": "none", "w": 0, "form": 0},
                                                                   {"t": "ordinal", "w": 1, "form": 0}])
        asp = cfg["asp"]
        jn = rand_net(rng, cfg, nnodes=(0, 1, 2, 3, 4) if asp else (2, 3, 4, 5), nlayers=(1, 2, 3) if asp < 2 else (1, 2), weights=(1,),
                      selfloops=rng.random() < 0.2)
        tight(rng, jn, cfg)
        allowed = sorted(rng.sample(range(asp + 1), rng.randrange(1, asp + 2)))
        if rng.random() < 0.4:
            allowed = list(range(asp + 1))
        r = rng.random()
        if r < 0.35:
            other = permuted(rng, jn, cfg, allowed)
        elif r < 0.42:
            other = permuted(rng, jn, cfg, range(asp + 1))
        elif r < 0.92:
            other = permuted(rng, tweak(rng, jn, cfg), cfg, allowed)
        else:
            other = rand_net(rng, cfg, nnodes=(len(jn["el"][0]),), nlayers=(1, 2), weights=(1,))
            tight(rng, other, cfg)
        c = decorate(rng, {"net": jn, "net2": other, "allowed": allowed, "all": len(allowed) == asp + 1 and rng.random() < 0.5}, cfg, 0)
        other["noedge"] = jn["noedge"]
        if asp == 0 and c["lab"][0] == "t":
            c["lab"][0] = "s"
        out.append(c)
    return out


def run(case):
    import netlib
    import fn
    from pymnet import isomorphisms as iso
    ctx = netlib.Ctx.of(case)
    A = fn.make(ctx, case["net"])
    B = fn.make(ctx, case["net2"])
    kw = {} if case["all"] else {"allowed_aspects": list(case["allowed"])}
    o = {}
    o["iso"] = int(bool(iso.is_isomorphic(A, B, **kw)))
    o["iso2"] = int(bool(iso.is_isomorphic(B, A, **kw)))
    m = iso.get_isomorphism(A, B, **kw)
    mf = iso.get_isomorphism(A, B, include_fixed=True, **kw)

    def proj(p):
        return [[[ctx.L.atom(k, a), ctx.L.atom(k, b)] for a, b in d.items()] for k, d in enumerate(p)] if p is not None else []
    o["none"] = 1 if m is None and mf is None else 0 if m is not None and mf is not None else 2
    o["map"] = proj(m)
    o["mapf"] = proj(mf)
    o["after"] = netlib.proj_net(ctx, A)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case[k] for k in ("net", "net2", "allowed")]) if case["net"]["e"] else None


def evidence(cases, results):
    iso = sum(1 for r in results if r["ok"] and r["obs"]["iso"] == 1)
    return {"isomorphic_pairs": iso, "non_isomorphic_pairs": len(results) - iso}
