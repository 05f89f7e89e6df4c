"""C07  intra-layer networks of multiplex networks"""
import random

from hist import big_params, mx_params, cases_from, run_history, hist_failed, leaf_ok  # noqa: F401

PID = "C07"
TRACE = "TraceNet"
RULE = "distinct TLC-generated multiplex histories mixing writes through the network and through its intra-layer networks"


def models(tier):
    return []


def cases(run):
    n = 14 if run.tier == "quick" else 120
    return cases_from(run, mx_params(n, 14) + big_params(2 if run.tier == "quick" else 12, 26, ml=False), lambda rng, case: case.update(probe=rng.randrange(1 << 30)))


def run(case):
    import netlib
    rng = random.Random(case["probe"])
    last = len(case["ops"]) - 1

    def observe(ctx, net, i, op):
        if not (i == last or rng.random() < 0.3):
            return {}
        nls = netlib.known_nls(ctx, net)
        rd = []
        for a in nls:
            for b in nls:
                if a[1:] == b[1:] and a != b:
                    f = rng.randrange(3)
                    rd.append([a, b, f, ctx.V.enc(netlib.getitem(ctx, net, a, b, f))])
        return {"rd": rd, "intra": netlib.proj_intra(ctx, net, case["nodes"]),
                "elems": netlib.proj_elems(ctx, net)}
    return run_history(case, observe)


failed = hist_failed
