"""C03  degrees, strengths and neighbourhoods"""
import random

from hist import big_params, ml_params, cases_from, run_history, hist_failed, leaf_ok  # noqa: F401

PID = "C03"
TRACE = "TraceNet"
RULE = "distinct TLC-generated operation histories in which at least one edge is stored"


def models(tier):
    return []


def cases(run):
    n = 60 if run.tier == "quick" else 500
    params = ml_params(n, 14) + ml_params(n // 4, 10, asps=(3,)) + \
        big_params(2 if run.tier == "quick" else 12, 26, mx=False)
    return cases_from(run, params, lambda rng, case: case.update(probe=rng.randrange(1 << 30)))


MODES = ("tot", "in", "out", "def")


def run(case):
    import netlib
    rng = random.Random(case["probe"])
    els = [case["nodes"]] + case["layers"]
    nls = netlib.all_nls(els)
    last = len(case["ops"]) - 1
    dims = [-1] * (case["cfg"]["asp"] + 1)

    def observe(ctx, net, i, op):
        qs = []
        if i == last:
            qs = [(a, m) for a in nls for m in MODES]
        elif rng.random() < 0.5:
            pool = [op["a"], op["b"]] if op["k"] == "set" else []
            pool += [rng.choice(nls) for _ in range(2)]
            qs = [(a, m) for a in pool for m in MODES]
        return {"dg": [netlib.proj_deg(ctx, net, a, dims, m) for a, m in qs]} if qs else {}
    return run_history(case, observe)


failed = hist_failed


def nontrivial(case, res):
    return str(case["ops"]) + str(case["cfg"]) if any(o["k"] == "set" and o["w"] != case["cfg"]["noedge"] for o in case["ops"]) else None
