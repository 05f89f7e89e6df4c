"""C01  edge store"""
import random

from hist import big_params, ml_params, cases_from, run_history, hist_failed, leaf_ok

PID = "C01"
TRACE = "TraceNet"
RULE = "distinct TLC-generated operation histories in which at least one edge is stored"


def models(tier):
    return []


def cases(run):
    n = 60 if run.tier == "quick" else 500
    params = ml_params(n, 14) + ml_params(n // 4, 10, asps=(3,)) + \
        big_params(2 if run.tier == "quick" else 12, 26, mx=False)

    def finish(rng, case):
        case["probe"] = rng.randrange(1 << 30)
    return cases_from(run, params, finish)


def run(case):
    import netlib
    rng = random.Random(case["probe"])
    els = [case["nodes"]] + case["layers"]
    nls = netlib.all_nls(els)
    last = len(case["ops"]) - 1

    def observe(ctx, net, i, op):
        rd, o = [], {}
        if i == last:
            o["arity"] = netlib.malformed(ctx, net, rng.choice(nls), rng.choice(nls), rng)
            for a in nls:
                for b in nls:
                    f = rng.randrange(3)
                    rd.append([a, b, f, ctx.V.enc(netlib.getitem(ctx, net, a, b, f))])
        else:
            ps = [(rng.choice(nls), rng.choice(nls)) for _ in range(3)]
            if op["k"] == "set":
                ps += [(op["a"], op["b"]), (op["b"], op["a"])]
            for a, b in ps:
                f = rng.randrange(3)
                rd.append([a, b, f, ctx.V.enc(netlib.getitem(ctx, net, a, b, f))])
        return dict(o, rd=rd)
    return run_history(case, observe)


failed = hist_failed


def nontrivial(case, res):
    return str(case["ops"]) + str(case["cfg"]) if any(o["k"] == "set" and o["w"] != case["cfg"]["noedge"] for o in case["ops"]) else None
