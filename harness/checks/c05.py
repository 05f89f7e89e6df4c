"""C05  sliced views of nodes"""
import random

from hist import big_params, ml_params, mx_params, cases_from, run_history, hist_failed, leaf_ok  # noqa: F401

PID = "C05"
TRACE = "TraceNet"
RULE = "distinct TLC-generated operation histories with at least one non-empty restricted neighbourhood observed"


def models(tier):
    return []


def cases(run):
    n = 30 if run.tier == "quick" else 300
    params = ml_params(n, 14) + ml_params(n // 4, 10, asps=(3,)) + mx_params(max(1, n // 6), 12) + \
        big_params(2 if run.tier == "quick" else 12, 26)
    return cases_from(run, params, lambda rng, case: case.update(probe=rng.randrange(1 << 30)))


def run(case):
    import netlib
    rng = random.Random(case["probe"])
    last = len(case["ops"]) - 1
    els = [case["nodes"]] + case["layers"]
    asp = case["cfg"]["asp"]

    def observe(ctx, net, i, op):
        if not (i == last or rng.random() < 0.15):
            return {}
        out = []
        have = netlib.known_nls(ctx, net)
        if not have:
            return {}
        for _ in range(60 if i == last else 12):
            a = rng.choice(have)
            b = rng.choice(have)
            if rng.random() < 0.6:     # aim at an actual neighbour
                nbs = [ctx.L.unl(x) for x in netlib.node(ctx, net, a).iter_total()]
                nbs = [x for x in nbs if -9 not in x]
                if nbs:
                    b = rng.choice(nbs)
            dims = [-1 if rng.random() < 0.5 else b[k] for k in range(asp + 1)]
            mode = rng.choice(["tot", "in", "out", "def"])
            how = rng.choice(["full", "full", "node", "args", "short"])
            if how == "short" and asp > 0:
                dims = [-1] + a[1:]
            elif how == "short":
                how, dims = "full", [-1]
            if -1 not in dims:
                dims[rng.randrange(asp + 1)] = -1
            out.append(netlib.proj_view(ctx, net, a, dims, mode, how))
        return {"dg": out}
    return run_history(case, observe)


failed = hist_failed


def nontrivial(case, res):
    return str(case["ops"]) + str(case["cfg"]) if any(q[3] > 0 and any(d != -1 for d in q[1]) for s in res["steps"] for q in s["obs"].get("dg", [])) else None
