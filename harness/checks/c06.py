"""C06  coupling edges of multiplex networks"""
import random

from hist import big_params, mx_params, cases_from, run_history, hist_failed, leaf_ok  # noqa: F401

PID = "C06"
TRACE = "TraceNet"
RULE = "distinct TLC-generated multiplex histories (14 coupling rule lists, directed or not, node-aligned or not); reads of all pairs, degrees, strengths and neighbourhoods of all node-layers at the end"


def models(tier):
    return []


def cases(run):
    n = 14 if run.tier == "quick" else 120
    return cases_from(run, mx_params(n, 13) + big_params(2 if run.tier == "quick" else 12, 26, ml=False), lambda rng, case: case.update(probe=rng.randrange(1 << 30)))


def run(case):
    import netlib
    rng = random.Random(case["probe"])
    last = len(case["ops"]) - 1

    def observe(ctx, net, i, op):
        if not (i == last or rng.random() < 0.2):
            return {}
        nls = netlib.known_nls(ctx, net)
        sub = nls if i == last else rng.sample(nls, min(4, len(nls)))
        rd = []
        for a in sub:
            for b in nls:
                f = rng.randrange(3)
                rd.append([a, b, f, ctx.V.enc(netlib.getitem(ctx, net, a, b, f))])
        # pairs with elements the network may not have
        # (layers outside of a fully interconnected network may still be coupled by name)
        far = netlib.all_nls([case["nodes"] + [7]] + (
            [[ctx.L.atom(k, x) for x in net.get_layers(k)] for k in range(1, ctx.asp + 1)]
            if ctx.cfg["full"] else [x + [6] for x in case["layers"]]))
        for _ in range(0 if not far else 6 if i < last else 24):
            a = rng.choice(far)
            b = list(a)
            k = rng.randrange(ctx.asp + 1)
            b[k] = rng.choice(far)[k]
            f = rng.randrange(3)
            rd.append([a, b, f, ctx.V.enc(netlib.getitem(ctx, net, a, b, f))])
        dims = [-1] * (ctx.asp + 1)
        dg = [netlib.proj_deg(ctx, net, a, dims, m) for a in sub for m in ("tot", "in", "out", "def")]
        return {"rd": rd, "dg": dg, "edges": netlib.proj_edges(ctx, net)}
    return run_history(case, observe)


failed = hist_failed
