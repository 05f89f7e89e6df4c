"""C25  complete invariants and automorphism generators (with a stand-in for the PyBliss module)"""
import os
import random
import sys

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401
from checks import c21

PID = "C25"
TRACE = "TraceIso"
BAD = "BadInv"
RULE = "distinct (pair of networks, allowed aspects) with at least one edge"
ASSUMPTIONS = ["PyBliss is not installed here: the library's bliss backend runs against harness/standins/PyBliss.py, "
               "which implements the interface it uses exactly (canonical labelings, isomorphisms, automorphism generators)"]


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 25)
    out = []
    while len(out) < (300 if run.tier == "quick" else 2500):
        cfg = rand_cfg(rng, asps=(0, 1, 1, 1, 2), dirs=(False,), coups=[{"t": "categorical", "w": 1, "form": 0}, {"t": "none", "w": 0, "form": 0},
                                                                   {"t": "ordinal", "w": 1, "form": 0}])
        asp = cfg["asp"]

        jn = rand_net(rng, cfg, nnodes=(0, 1, 2, 3, 4) if asp else (2, 3, 4, 5), nlayers=(1, 2, 3) if asp < 2 else (1, 2), weights=(1, 2),
                      selfloops=rng.random() < 0.2)
        c21.tight(rng, jn, cfg)
        allowed = sorted(rng.sample(range(asp + 1), rng.randrange(1, asp + 2)))
        if rng.random() < 0.4:
            allowed = list(range(asp + 1))
        r = rng.random()
        if r < 0.3:
            other = c21.permuted(rng, jn, cfg, allowed)
        elif r < 0.4:
            other = c21.permuted(rng, jn, cfg, range(asp + 1))
        else:
            other = c21.permuted(rng, c21.tweak(rng, jn, cfg), cfg, allowed)
        c = decorate(rng, {"net": jn, "net2": other, "allowed": allowed, "all": len(allowed) == asp + 1 and rng.random() < 0.5}, cfg, 0)
        other["noedge"] = jn["noedge"]
        if asp == 0 and c["lab"][0] == "t":
            c["lab"][0] = "s"
        out.append(c)
    return out


def run(case):
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "standins"))
    import netlib
    import fn
    from pymnet import isomorphisms as iso
    ctx = netlib.Ctx.of(case)
    A = fn.make(ctx, case["net"])
    B = fn.make(ctx, case["net2"])
    kw = {} if case["all"] else {"allowed_aspects": list(case["allowed"])}
    o = {}
    ia, ib = iso.get_complete_invariant(A, **kw), iso.get_complete_invariant(B, **kw)
    o["eq"] = int(ia == ib)
    o["hash"] = int(ia != ib or hash(ia) == hash(ib))
    o["again"] = int(ia == iso.get_complete_invariant(A, **kw))
    for be in ("nx", "bliss"):
        o[be] = int(bool(iso.is_isomorphic(A, B, backend=be, **kw)))

    def proj(p):
        return [[[ctx.L.atom(k, a), ctx.L.atom(k, b)] for a, b in d.items()] for k, d in enumerate(p)] if p is not None else []
    m = iso.get_isomorphism(A, B, backend="bliss", include_fixed=True, **kw)
    o["none"] = int(m is None)
    o["mapf"] = proj(m)
    o["gens"] = [proj(g) for g in iso.get_automorphism_generators(A, **kw)]
    o["gensf"] = [proj(g) for g in iso.get_automorphism_generators(A, include_fixed=True, **kw)]
    o["after"] = netlib.proj_net(ctx, A)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case[k] for k in ("net", "net2", "allowed")]) if case["net"]["e"] else None


def evidence(cases, results):
    gens = {}
    for r in results:
        if r["ok"]:
            k = str(len(r["obs"]["gens"]))
            gens[k] = gens.get(k, 0) + 1
    return {"isomorphic_pairs": sum(1 for r in results if r["ok"] and r["obs"]["eq"] == 1), "number_of_generators": gens}
