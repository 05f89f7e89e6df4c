"""C24  full, preferential attachment, small world and geometric models"""
import random

from fn import failed, cat, ordi, none  # noqa: F401

PID = "C24"
TRACE = "TraceModels"
BAD = "BadModel"
RULE = "distinct (model, parameters)"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 24)
    out = []
    big = run.tier != "quick"
    for i in range(220 if not big else 2500):
        f = rng.choice(["full", "full", "full_multilayer", "ba", "ba", "ws", "ws", "geo"])
        L = rng.choice([1, 2, 3])
        c = {"fn": f, "seed": rng.randrange(1 << 30), "nl": [], "full": True, "p": "", "links": []}
        coup = rng.choice([cat(1), cat(2), ordi(3), none()])
        if f == "full":
            n = rng.choice([0, 1, 2, 3, 4, 5]) if i % 9 else rng.randrange(7, 11)
            mono = rng.random() < 0.25
            c.update(kind="ml" if mono else "mx", coup=[] if mono else [coup], named=rng.random() < 0.5,
                     el=[list(range(n))] + ([] if mono else [list(range(L))]), layers=[])
        elif f == "full_multilayer":
            n = rng.choice([0, 1, 2, 3, 4])
            c.update(kind="ml", coup=[], named=rng.random() < 0.5, el=[list(range(n)), list(range(L))], layers=[])
        elif f == "ba":
            ms = [rng.choice([0, 1, 1, 2, 3, 4]) for _ in range(L)]
            n = rng.randrange(max(ms) + 1, 14) if rng.random() < 0.7 else rng.randrange(0, max(ms) + 2)
            c.update(kind="mx", coup=[coup], el=[list(range(n)), list(range(L))], layers=[{"l": [k], "m": m} for k, m in enumerate(ms)])
        elif f == "ws":
            n = rng.randrange(5, 12)
            c.update(kind="mx", coup=[coup], el=[list(range(n)), list(range(L))], p=rng.choice(["0", "0", "0.3", "1"]),
                     layers=[{"l": [k], "m": rng.randrange(1, (n - 1) // 2 + 1) * 2} for k in range(L)])
        else:
            n = rng.randrange(2, 8)
            c.update(kind="mx", coup=[coup], el=[list(range(n)), list(range(L))],
                     layers=[{"l": [k], "m": rng.randrange(1, n * (n - 1) // 2 + 1)} for k in range(L)])
        c["lab"] = rng.choice(["s", "j", "i"]) if c.get("named") else "i"
        if c["coup"] and c["coup"][0]["t"] == "ordinal" and c["lab"] == "s":
            c["lab"] = "j"
        out.append(c)
    for n in (0, 1, 2):     # complete graphs
        out.append({"fn": "full", "seed": 2 * n, "nl": [], "full": True, "p": "", "links": [], "kind": "ml", "coup": [],
                    "named": False, "el": [list(range(n))], "layers": [], "lab": "i"})
    for n, ms in ((40, [60, 20]), (60, [30, 90, 120]), (50, [50])):
        out.append({"fn": "mean", "n": n, "ms": ms, "draws": 40 if not big else 300, "seed": rng.randrange(1 << 30)})
    for n0, L, n in ((3, 1, 1500), (4, 1, 3000), (3, 2, 2000), (4, 2, 14000)):
        n = n if not big else 5 * n
        out.append({"fn": "counts", "family": "ba", "n0": n0, "layers": L, "n": n, "pairs": [], "seed": rng.randrange(1 << 30)})
    return out


def run(case):
    import netlib
    import fn
    from pymnet import models
    f = case["fn"]
    random.seed(case["seed"])
    if f == "counts":
        L = case["layers"]
        return fn.ok(case, {"counts": fn.counted(
            lambda: models.ba_total_degree(case["n0"], [1] * L),
            lambda net: [(min(e[0], e[1]), 100 * (e[2] + 1) + max(e[0], e[1])) for e in net.edges if e[0] != e[1]], case["n"], case["seed"])})
    if f == "mean":
        tot = [0] * len(case["ms"])
        for _ in range(case["draws"]):
            net = models.geo(case["n"], case["ms"])
            for k in range(len(tot)):
                tot[k] += len(net.A[k].edges)
        return fn.ok(case, {"tot": tot})
    asp = len(case["el"]) - 1
    ctx = fn.ident_ctx(case["kind"], asp, case["coup"], True, lab=["i"] + [case["lab"]] * asp)
    n = len(case["el"][0])
    lays = case["el"][1] if asp else None
    if asp:
        lays = [ctx.L.lab(1, a) for a in lays] if case.get("named") else len(lays)
        if case.get("named") and len(lays) % 2:
            lays = tuple(lays)
    cp = {}
    if case["coup"]:
        k = case["coup"][0]
        cp["couplings"] = (k["t"], k["w"]) if k["t"] != "none" else ("none" if f == "full" else None)
        if case["seed"] % 2 and cp["couplings"] == (("categorical", 1) if f == "full" else None):
            cp = {}     # the default
    ms = [y["m"] for y in case["layers"]]
    if f == "full":
        net = models.full(n, lays, **(cp if asp else {}))
    elif f == "full_multilayer":
        net = models.full_multilayer(n, lays)
    elif f == "ba":
        net = models.ba_total_degree(n, ms, **cp)
    elif f == "ws":
        if case["p"] != "0.3" or case["seed"] % 3 == 0:
            cp["p"] = float(case["p"])
        net = models.ws(n, [n * m // 2 for m in ms], **cp)
    else:
        net = models.geo(n, ms, **cp)
    return fn.ok(case, {"res": netlib.proj_net(ctx, net)})


def nontrivial(case, res):
    return str([case.get(k) for k in ("fn", "el", "layers", "coup", "p", "n")])


def leaf_ok(path):
    return "counts" not in path or path[-1] != 1
