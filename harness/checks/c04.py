"""C04  edge enumeration"""
import random

from hist import big_params, ml_params, mx_params, cases_from, run_history, hist_failed, leaf_ok  # noqa: F401

PID = "C04"
TRACE = "TraceNet"
RULE = "distinct TLC-generated operation histories in which at least one edge exists at some observation"


def models(tier):
    return []


def cases(run):
    n = 40 if run.tier == "quick" else 400
    params = ml_params(n, 14) + ml_params(n // 4, 10, asps=(3,)) + mx_params(max(1, n // 5), 12) + \
        big_params(2 if run.tier == "quick" else 12, 26)
    return cases_from(run, params, lambda rng, case: case.update(probe=rng.randrange(1 << 30)))


def run(case):
    import netlib
    rng = random.Random(case["probe"])
    last = len(case["ops"]) - 1

    def observe(ctx, net, i, op):
        if i == last or rng.random() < 0.35:
            return {"edges": netlib.proj_edges(ctx, net)}
        return {}
    return run_history(case, observe)


failed = hist_failed


def nontrivial(case, res):
    return str(case["ops"]) + str(case["cfg"]) if any(s["obs"].get("edges", {}).get("list") for s in res["steps"]) else None
