"""C28  requirement predicates and network creators of the sampling package"""
import random

from fn import failed, decorate  # noqa: F401

PID = "C28"
TRACE = "TraceSampling"
BAD = "BadReq"
RULE = "distinct (network, calls) and creator parameters"


def models(tier):
    return []


def finding_key(case, f, b):
    if case["fn"] == "random_nodelists" and b["clause"] == "unexpected-exception" and "xrange" in b["witness"] and "NameError" in b["witness"]:
        return "random_nodelists:NameError:xrange"
    return None


def cases(run):
    import sampling as S
    rng = random.Random(run.seed * 31 + 28)
    out = []
    big = run.tier != "quick"
    while len(out) < (260 if not big else 3000):
        cfg, jn = S.sample_net(rng)
        calls, lens = [], []
        for _ in range(12):
            nodes = rng.sample(jn["el"][0], rng.randrange(1, min(4, len(jn["el"][0])) + 1))
            layers = rng.sample(jn["el"][1], rng.randrange(1, len(jn["el"][1]) + 1))
            if rng.random() < 0.35:
                calls.append({"f": "relaxed", "nodes": nodes, "layers": layers})
                continue
            r = S.requirement(rng, cfg, jn, k=len(layers))
            if r is None or r["style"] == "int" or len(layers) != r["nlay"] or r["nn"] > len(jn["el"][0]):
                continue
            nodes = rng.sample(jn["el"][0], r["nn"])
            base, given = r.pop("basis"), rng.random() < 0.5
            if r["type"] == "strict" and all(v >= 0 for c, v in r["inter"]):
                lens.append({"sizes": r["sizes"], "inter": r["inter"]})
            if rng.random() < 0.5 and base[0]:             # the subgraph the requirement was taken from
                nodes, layers, given = base[0], rng.sample(base[1], len(base[1])), True
                if r["inter"] and rng.random() < 0.5:       # ... with another intersection or the layers in another order
                    r["inter"] = [list(x) for x in r["inter"]]
                    x = rng.choice(r["inter"])
                    x[1] = rng.choice([S.ANY, max(0, x[1] - 1), x[1] + 1, 0])
                r["nn"] = len(nodes)
            calls.append(dict(r, f="sizes", nodes=nodes, layers=layers, given=given))
        if not calls:
            continue
        for _ in range(2):
            k = rng.randrange(1, 5)
            lens.append({"sizes": [rng.randrange(1, 6) for _ in range(k)], "inter": [[c, rng.randrange(0, 4)] for c in S.combos(k)]})
        c = decorate(rng, {"fn": "reqs", "net": jn, "calls": calls, "lens": lens}, cfg)
        out.append(c)
    for i in range(60 if not big else 400):
        L = rng.randrange(0, 4)
        ns = [sorted(rng.sample(range(5), rng.randrange(0, 5))) for _ in range(L)]
        out.append({"fn": "er", "mode": rng.choice(["p", "p0", "p1"]), "ns": ns, "seed": rng.choice([0, rng.randrange(1 << 30)]), "n": 0, "iters": rng.random() < 0.3,
                    "net": {"kind": "ml", "asp": 1, "dir": False, "full": False, "noedge": 0, "coup": [], "e": [],
                            "el": [sorted(set(x for y in ns for x in y)), list(range(L))], "nl": [[x, k] for k, y in enumerate(ns) for x in y]}})
        out[-1]["n"] = 300 if out[-1]["mode"] == "p" else 0
    for i in range(12):
        pool = rng.randrange(1, 9)
        out.append({"fn": "random_nodelists", "pool": pool, "per": rng.randrange(0, pool + 1), "nlay": rng.randrange(0, 4), "seed": rng.choice([0, rng.randrange(1 << 30)])})
    return out


def run(case):
    import netlib
    import fn
    import sampling as S
    from pymnet.sampling import reqs, creators
    if case["fn"] == "random_nodelists":
        a = [list(x) for x in creators.random_nodelists(case["pool"], case["per"], case["nlay"], seed=case["seed"])]
        b = [list(x) for x in creators.random_nodelists(case["pool"], case["per"], case["nlay"], seed=case["seed"])]
        return fn.ok(case, {"lists": a, "seeded": int(a == b)})
    if case["fn"] == "er":
        p = {"p": 0.4, "p0": 0, "p1": 1}[case["mode"]]
        ns = case["ns"]
        f = creators.er_multilayer_partially_interconnected
        res = f((iter(x) for x in ns) if case["iters"] else ns, p, seed=case["seed"])
        again = f(ns, p, seed=case["seed"])
        tot = sum(len(f(ns, p, seed=case["seed"] + i).edges) for i in range(case["n"]))
        ctx = fn.ident_ctx("ml", 1, full=False)
        return fn.ok(case, {"res": netlib.proj_net(ctx, res), "seeded": int(sorted(res.edges) == sorted(again.edges)), "total": tot})
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    res = []
    for q in case["calls"]:
        nodes = [ctx.L.lab(0, a) for a in q["nodes"]]
        layers = [ctx.L.lab(1, a) for a in q["layers"]]
        if q["f"] == "relaxed":
            v = reqs.relaxed_check_reqs(net, nodes, layers)
        else:
            inter = [None if s == S.ANY else s for c, s in q["inter"]]
            kw = {}
            if None in inter:
                kw = {"nnodes": q["nn"], "nlayers": q["nlay"]}
            elif q["type"] != "strict":
                kw = {"nnodes": q["nn"]}
                if q["given"]:
                    kw["nlayers"] = q["nlay"]
            elif q["given"]:
                kw = {"nnodes": q["nn"], "nlayers": q["nlay"]}
            if q["type"] != "strict":
                kw["intersection_type"] = q["type"]
            v = reqs.default_check_reqs(net, nodes, layers, list(q["sizes"]), inter, **kw)
        res.append(1 if v is True else 0 if v is False else 7)
    lens = [list(reqs.default_calculate_required_lengths(list(q["sizes"]), [s for c, s in q["inter"]])) for q in case["lens"]]
    ref = []
    N, L = [ctx.L.lab(0, a) for a in case["net"]["el"][0]], [ctx.L.lab(1, a) for a in case["net"]["el"][1]]
    D, R = reqs.default_calculate_required_lengths, reqs.default_check_reqs
    n2 = {"nnodes": 2, "nlayers": 2}
    for k, g in enumerate([
            lambda: D([], []), lambda: D([2, 2], []), lambda: D([2, 2], [1, 1]), lambda: D([2], [1]), lambda: D([2, 0], [0]), lambda: D([0], []),
            lambda: D([2, 2], [-1]), lambda: D([2, 2], [0.5]), lambda: D([2, 1.5], [1]), lambda: D([2, 2], [None]), lambda: D([2, -1], [0]),
            lambda: R(net, N[:2], L[:2], [1, 1], [None]), lambda: R(net, N[:2], L[:2], [1, 1], [None], nlayers=2),
            lambda: R(net, N[:2], L[:2], [1, 1], [0], intersection_type="less_or_equal"),
            lambda: R(net, N[:2], L[:2], [1, 1], [None], nnodes=2, intersection_type="less_or_equal"),
            lambda: R(net, N[:2], L[:2], [1, 1], [0], intersection_type="Strict", **n2),
            lambda: R(net, N[:1], L[:2], [1, 1], [0], **n2), lambda: R(net, N[:2], L[:1], [1, 1], [0], **n2),
            lambda: R(net, N[:1], L[:2], [1, 1], [0]), lambda: R(net, N[:2], L[:1], [1, 1], [0]),
            lambda: R(net, N[:2], L[:2], [1, 0], [0], **n2), lambda: R(net, N[:2], L[:2], [2, 2], [])]):
        if case["id"] % 8 == 0 and len(N) > 1 and len(L) > 1:
            try:
                g()
                ref.append([k, 0])
            except Exception:
                ref.append([k, 1])
    return fn.ok(case, {"res": res, "lens": lens, "refused": ref, "after": netlib.proj_net(ctx, net)})


def nontrivial(case, res):
    return str([case.get(k) for k in ("net", "calls", "ns", "mode", "pool", "per", "nlay")])


def evidence(cases, results):
    v = [x for r in results if r["ok"] and "lens" in r["obs"] for x in r["obs"]["res"]]
    return {"requirement_calls": len(v), "accepted": sum(x == 1 for x in v)}
