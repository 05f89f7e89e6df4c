"""C37  orbit equations, independent equations and redundant orbits"""
import random

import gr
from gr import ASSUMPTIONS  # noqa: F401
from fn import failed  # noqa: F401

PID = "C37"
TRACE = "TraceGraphlets"
BAD = "BadEqs"
RULE = "distinct parameters (sizes, layers, kinds of isomorphism, couplings, layer names)"
CASE_LIMIT = 200


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 37)
    out = []
    quick = run.tier == "quick"
    for p in gr.SMALL * (1 if quick else 4) + (gr.LARGE[:1] + gr.LARGE[2:] if quick else gr.LARGE * 2):
        c = gr.params(rng, p)
        # the classification into independent equations takes no couplings
        c["ind"] = int(c["coup"] == "none" and 3 <= c["n"] <= 4 and not (c["mode"] == "all" and c["nl"] < len(c["lays"])))
        c["perm"] = rng.randrange(10 ** 6)
        out.append(c)
    return out


def run(case):
    import sys
    import fn
    import netlib
    K = gr.Kit(case)
    G = K.G
    M = sys.modules["pymnet.graphlets.graphlets"]
    rng = random.Random(case["perm"])
    nums = G.orbit_numbers(case["n"], K.nets, K.auts)
    olist = G.ordered_orbit_list(nums)
    eqs = G.orbit_equations(case["n"], K.nets, K.auts, K.invs, **K.kw)
    inds, reds, o = set(), [], {"eqsame": 1}
    if case["ind"]:
        inds, eqs2 = G.independent_equations(case["n"], case["nl"], K.layers, **K.kw)
        o["eqsame"] = int(dict((k, dict(v)) for k, v in eqs2.items()) == dict((k, dict(v)) for k, v in eqs.items()))
        reds = G.redundant_orbits(inds, eqs, nums, olist)
        names = {str(q): list(q) for q in olist}
        reds = [names.get(q, [-9, -9, -9]) for q in reds]
    o.update(reps=K.reps(), orbits=[list(q) for q in olist], reds=reds, indkeys=len(inds), eqs=[], subs=[])
    for k, v in eqs.items():
        if len(k[0]) == 3:
            a, b = k[0], k[0]
            if k[1] != 2:
                b = (-9, -9, -9)
        else:
            a, b = k[0][0], k[1][0]
            if (k[0][1], k[1][1]) != (1, 1) or a == b:
                b = (-9, -9, -9)
        o["eqs"].append([list(a), list(b), [[list(q), netlib.num(x)] for q, x in v.items()], int(k in inds)])
    pairs = [(a, b) for a in olist for b in olist if b[0] <= a[0]]
    small = [q for q in pairs if q[1][0] == 2]
    same = [q for q in pairs if q[0][:2] == q[1][:2]]
    for a, b in [q for z, m in ((small, 25), (pairs, 40), (same, 25)) for q in rng.sample(z, min(m, len(z)))]:
        o["subs"].append([list(a), list(b), M.subtrahend(a, b, K.nets, K.auts, K.invs, **K.kw)])
    return fn.ok(gr.out(case), o)


def nontrivial(case, res):
    return str([case[k] for k in ("n", "lays", "nl", "mode", "coup", "lab")])


def leaf_ok(p):
    # (the independent equations are looked at in some cases only)
    if p[1] == "subs":
        return p[3:] == [2]
    return p[1] not in ("reps", "orbits", "reds", "indkeys", "eqsame") and not (p[1] == "eqs" and p[3:] == [3])


def evidence(cases, results):
    return {"equations": sum(len(r["obs"]["eqs"]) for r in results if r["ok"])}
