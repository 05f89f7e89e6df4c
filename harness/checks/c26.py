"""C26  exhaustive enumeration of induced subgraphs"""
import random

from fn import failed, decorate  # noqa: F401

PID = "C26"
TRACE = "TraceSampling"
BAD = "BadEnum"
RULE = "distinct (network, requirements) for which at least one subgraph is found"


def models(tier):
    return []


def cases(run):
    import sampling as S
    rng = random.Random(run.seed * 31 + 26)
    out = []
    while len(out) < (700 if run.tier == "quick" else 4000):
        cfg, jn = S.sample_net(rng)
        if rng.random() < 0.25:      # only the size of the intersection of all of three layers is given
            if cfg["full"] or cfg["kind"] != "ml":
                continue
            jn = S.rand_net(rng, cfg, nnodes=(3, 4), nlayers=(3,), weights=(1, 2), density=0.8, memb=rng.choice([0.5, 0.7]), selfloops=False, layer_pool=4)
            r = S.requirement(rng, cfg, jn, 3, 1)
            if r is None or max(r["sizes"]) == 1 or r["nn"] > len(jn["el"][0]):
                continue
            del r["basis"]
            r["req"] = "sizes"
            out.append(finish(rng, r, cfg, jn))
            continue
        q = rng.random()
        if q < 0.4:
            r = {"req": "relaxed" if q < 0.3 else "even", "nn": rng.randrange(1, min(4, len(jn["el"][0])) + 1), "nlay": rng.randrange(1, len(jn["el"][1]) + 1)}
        else:
            r = S.requirement(rng, cfg, jn)
            if r is None:
                continue
            del r["basis"]
            r["req"] = "sizes"
        out.append(finish(rng, r, cfg, jn))
    return out


def finish(rng, r, cfg, jn):
    c = decorate(rng, dict(r, net=jn), cfg)
    return c


def run(case):
    import netlib
    import fn
    import sampling as S
    from pymnet.sampling import esu, dumb, reqs
    pymnet = netlib.pymnet
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    if case["req"] == "even":
        def check(n, nodes, layers):
            return reqs.relaxed_check_reqs(n, nodes, layers) and len(pymnet.subnet(n, nodes, layers).edges) % 2 == 0
        kw = {"nnodes": case["nn"], "nlayers": case["nlay"], "custom_check_function": check}
    else:
        kw = S.kwargs(case)
    runs = []
    rng = random.Random(case["id"])

    def proj(res):
        return [[[ctx.L.atom(0, x) for x in a], [ctx.L.atom(1, x) for x in b]] for a, b in res]

    def go(how, f, args):
        res = []
        if rng.random() < 0.3:
            f(net, lambda x: res.append(x), **args)
        else:
            f(net, res, **args)
        runs.append({"how": how, "found": proj(res)})
    go("esu", esu.sample_multilayer_subgraphs_esu, kw)
    go("esu-nocopy", esu.sample_multilayer_subgraphs_esu, dict(kw, copy_network=False))
    d = case["nn"] + case["nlay"] - 1
    go("esu-p1", esu.sample_multilayer_subgraphs_esu, dict(kw, p=[1] * d, seed=3, copy_network=rng.random() < 0.5))
    go("dumb", dumb.dumb_enumeration, kw)
    ref = []
    sizes = {"sizes": [1, 1], "intersections": [1]}
    n1 = {"nnodes": 1, "nlayers": 1}
    for k, (kw, r) in enumerate([
            ({}, []), ({"nnodes": 2}, []), ({"nlayers": 2}, []), ({"sizes": [1, 1]}, []), ({"intersections": [1]}, []), ({"sizes": [1, 1], "nnodes": 1}, []),
            (dict(sizes, nnodes=2, nlayers=2), []), (dict(sizes, nnodes=2), []), (dict(sizes, nlayers=2), []),
            (dict(sizes, intersections=[None]), []), (dict(sizes, intersection_type="less_or_equal"), []),
            (dict(sizes, intersection_type="less_or_equal", nnodes=2, nlayers=2), []),
            (dict(sizes, intersections=1), []), (dict(sizes, intersections=1, nnodes=2, nlayers=2), []), (dict(sizes, intersections=-1, nnodes=2), []),
            (dict(sizes, intersections=[]), []), (dict(sizes, sizes=[1, 0]), []), (dict(sizes, sizes=[]), []),
            ({"nnodes": 0, "nlayers": 1}, []), ({"nnodes": 1, "nlayers": 0}, []), ({"nnodes": 1.0, "nlayers": 1}, []), ({"nnodes": 1, "nlayers": "1"}, []),
            (dict(sizes, custom_check_function=lambda n, a, b: True), []), ({"nnodes": 1, "custom_check_function": lambda n, a, b: True}, []),
            (dict(n1), "nothing to append to"), (dict(n1, custom_check_function=lambda n, a, b: True), 5)]):
        if case["id"] % 8 or isinstance(r, (str, int)) and not list(net.iter_node_layers()):
            continue
        for f in (esu.sample_multilayer_subgraphs_esu, dumb.dumb_enumeration):
            try:
                f(net, r, **kw)
                ref.append([k, 0])
            except Exception:
                ref.append([k, 1])
    return fn.ok(case, {"runs": runs, "refused": ref, "after": netlib.proj_net(ctx, net)})


def nontrivial(case, res):
    if not res["ok"] or not any(r["found"] for r in res["obs"]["runs"]):
        return None
    return str([case.get(k) for k in ("net", "req", "sizes", "inter", "type", "nn", "nlay")])


def evidence(cases, results):
    f = [len(r["obs"]["runs"][0]["found"]) for r in results if r["ok"]]
    return {"subgraphs_found": sum(f), "largest_result": max(f or [0])}
