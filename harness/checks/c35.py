"""C35  graphlets and their automorphism orbits"""
import random

import gr
from gr import ASSUMPTIONS  # noqa: F401
from fn import failed  # noqa: F401

PID = "C35"
TRACE = "TraceGraphlets"
BAD = "BadGen"
RULE = "distinct parameters (sizes, layers, kinds of isomorphism, couplings, layer names)"
CASE_LIMIT = 120


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 35)
    out = []
    for p in gr.SMALL * (2 if run.tier == "quick" else 6) + gr.LARGE * (1 if run.tier == "quick" else 3):
        c = gr.params(rng, p)
        c["upto"] = rng.choice([c["n"], c["n"], rng.randrange(2, c["n"] + 1)])
        c["perm"] = rng.randrange(10 ** 6)
        out.append(c)
    return out


def run(case):
    import fn
    K = gr.Kit(case)
    G, L = K.G, K.L
    rng = random.Random(case["perm"])
    o = {"reps": K.reps(), "inv": [list(v) for v in K.invs.values()], "invok": []}
    for k in K.nets:
        for i, net in enumerate(K.nets[k]):
            ci = K.pymnet.get_complete_invariant(net, **K.kw)
            o["invok"].append([k, i, int(K.invs.get(str(ci)) == (k, i))])
    o["auts"] = [list(k) + [v] for k, v in K.auts.items()]
    nl = G.graphlets_module.automorphism_orbits_nl if hasattr(G.graphlets_module, "automorphism_orbits_nl") else None
    if nl is None:
        import sys
        nl = sys.modules["pymnet.graphlets.graphlets"].automorphism_orbits_nl
    o["autsnl"] = [[k[0], k[1], k[2][0], L.atom(1, k[2][1]), v[0], L.atom(1, v[1])] for k, v in nl(K.nets, **K.kw).items()]
    o["lists"] = [[k, [list(q) for q in v]] for k, v in G.list_orbits(K.auts).items()]
    nums = G.orbit_numbers(case["upto"], K.nets, K.auts)
    o["nums"] = [list(k) + [v] for k, v in nums.items()]
    o["ordered"] = [list(q) if q is not None else [-9] for q in G.ordered_orbit_list(nums)]
    o["names"] = []
    import sys
    oname = sys.modules["pymnet.graphlets.graphlets"].orbit_name
    allnets = [(k, i) for k in K.nets for i in range(len(K.nets[k]))]
    for k, i in rng.sample(allnets, min(25, len(allnets))):
        u = rng.randrange(k)
        names = ["u", "v", "w", "x", "y"] if rng.random() < 0.5 else rng.sample(range(7), k)
        net = K.pymnet.transforms.relabel(K.nets[k][i], dict((a, names[a]) for a in range(k)))
        o["names"].append([k, i, u] + list(oname(names[u], net, K.nets, K.invs, K.auts, **K.kw)))
    return fn.ok(gr.out(case), o)


def leaf_ok(p):
    return True


def nontrivial(case, res):
    return str([case[k] for k in ("n", "lays", "nl", "mode", "coup", "lab")])


def evidence(cases, results):
    return {"graphlets": sum(len(r["obs"]["reps"]) for r in results if r["ok"])}
