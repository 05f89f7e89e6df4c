"""C02  nodes, layers and node-layer membership"""
import random

from hist import big_params, ml_params, mx_params, cases_from, run_history, hist_failed, leaf_ok  # noqa: F401

PID = "C02"
TRACE = "TraceNet"
RULE = "distinct TLC-generated operation histories (multilayer and multiplex), elements observed at every third call and at the end"


def models(tier):
    return []


def cases(run):
    n = 30 if run.tier == "quick" else 300
    params = ml_params(n, 12) + ml_params(n // 4, 10, asps=(3,)) + mx_params(max(1, n // 4), 12) + \
        big_params(2 if run.tier == "quick" else 12, 26)
    return cases_from(run, params, lambda rng, case: case.update(probe=rng.randrange(1 << 30)))


def run(case):
    import netlib
    rng = random.Random(case["probe"])
    last = len(case["ops"]) - 1

    def observe(ctx, net, i, op):
        if i == last or rng.random() < 0.35:
            return {"elems": netlib.proj_elems(ctx, net)}
        return {}
    return run_history(case, observe)


failed = hist_failed
