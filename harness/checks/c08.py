"""C08  equality and pickling"""
import copy
import random

from hist import big_params, ml_params, mx_params, pick_labels
from fn import failed, ok  # noqa: F401

PID = "C08"
TRACE = "TraceEq"
RULE = "distinct pairs of histories; the second is a variation (shuffled, extended, shortened, reconfigured) of the first, the specification decides whether they are equal"


def models(tier):
    return []


def vary(rng, a, P):
    b = copy.deepcopy(a)
    r = rng.randrange(12)
    ops = b["ops"]
    cfg = b["cfg"]
    if r == 0 and ops:
        del ops[rng.randrange(len(ops))]
    elif r == 1 and ops:
        ops.append(copy.deepcopy(rng.choice(ops)))
    elif r == 2:
        sets = [o for o in ops if o["k"] in ("set", "iset")]
        if sets:
            o = rng.choice(sets)
            o["w"] = rng.choice(P["weights"])
    elif r == 3:
        ops.append({"k": "node", "n": rng.choice(P["nodes"]), "f": 0})
    elif r == 4 and cfg["asp"] > 0:
        x = rng.randrange(1, cfg["asp"] + 1)
        ops.append({"k": "layer", "n": rng.choice(P["layers"][x - 1]), "x": x, "f": 0})
    elif r == 5 and cfg["asp"] > 0:
        ops.append({"k": "nodeat", "n": rng.choice(P["nodes"]), "l": [rng.choice(l) for l in P["layers"]], "f": 0})
    elif r == 6:
        cfg["dir"] = not cfg["dir"]
    elif r == 7 and cfg["asp"] > 0:
        cfg["full"] = not cfg["full"]
    elif r == 8:
        if cfg["kind"] == "mx":
            k = rng.randrange(len(cfg["coup"]))
            o = cfg["coup"][k]
            alts = [{"t": "categorical", "w": 1, "form": 0}, {"t": "categorical", "w": 1, "form": 1},
                    {"t": "categorical", "w": 2, "form": 0}, {"t": "none", "w": 0, "form": 0},
                    {"t": "none", "w": 0, "form": 1}]
            if o["t"] in ("network", "none", "categorical"):
                cfg["coup"][k] = rng.choice(alts)
        elif cfg["noedge"] == 0 and all(o.get("w") != 5 for o in ops):
            cfg["noedge"] = 5
    elif r == 9:
        rng.shuffle(ops)
    elif r == 10:
        sets = [o for o in ops if o["k"] == "set"]
        for o in sets:      # write the reversed pair where that is the same edge
            if not cfg["dir"] and rng.random() < 0.5:
                o["a"], o["b"] = o["b"], o["a"]
            o["f"] = rng.randrange(3)
    else:
        i, j = sorted((rng.randrange(len(ops)), rng.randrange(len(ops))))
        ops[i], ops[j] = ops[j], ops[i]
    if cfg["kind"] == "mx" or rng.random() < 0.3:
        pass
    return b


def cases(run):
    n = 24 if run.tier == "quick" else 250
    params = ml_params(n, 8) + mx_params(max(1, n // 4), 8) + \
        big_params(2 if run.tier == "quick" else 12, 12)
    rng = random.Random(run.seed * 31 + 8)
    out = []
    for g in run.generate(params):
        P = params[g["p"] - 1]
        for op in g["ops"]:
            op["f"] = rng.randrange(4)
        # rejected writes are left out: they are the business of C07
        ops = [o for o in g["ops"] if not (P["cfg"]["kind"] == "mx" and o["k"] == "set" and (o["a"][1:] != o["b"][1:] or o["a"] == o["b"]))]
        if P["cfg"]["kind"] == "mx":    # writes through A need their layer: leave them in place, others may move
            ops = [o for o in ops if o["k"] not in ("iset", "inode", "aset")]
        if not ops:
            continue
        a = {"cfg": copy.deepcopy(P["cfg"]), "ops": ops}
        b = vary(rng, a, P)
        if rng.random() < 0.3:
            b = vary(rng, b, P)
        case = {"a": a, "b": b, "lab": pick_labels(rng, P["cfg"]), "probe": rng.randrange(1 << 30)}
        out.append(case)
    return out


def run(case):
    import pickle
    import netlib
    import fn
    rng = random.Random(case["probe"])
    ca = netlib.Ctx(case["a"]["cfg"], case["lab"])
    cb = netlib.Ctx(case["b"]["cfg"], case["lab"])
    A = fn.make(ca, case["a"])
    B = fn.make(cb, case["b"])
    o = {"eq": A == B, "eqr": B == A, "ne": A != B, "ner": B != A, "refl": A == A,
         "eqint": A == 3, "neint": A != 3}
    o = {k: int(v) if v is True or v is False else 2 for k, v in o.items()}
    try:        # 2: there is no hash
        o["hash"] = int(hash(A) == hash(B))
    except TypeError:
        o["hash"] = 2
    C = pickle.loads(pickle.dumps(A)) if case["probe"] % 2 else copy.deepcopy(A)
    try:
        o["phash"] = int(hash(A) == hash(C) == hash(A))
    except TypeError:
        o["phash"] = 2
    o["pick"] = int(bool(A == C) and bool(C == A))
    o["picknot"] = int(bool(A != C))
    o["pnet"] = netlib.proj_net(ca, C)
    # change the copy: the original must not follow
    C.add_node(ca.L.lab(0, 20))
    nls = netlib.known_nls(ca, C)
    if nls:
        a = rng.choice(nls)
        b = [21] + a[1:]
        netlib.setitem(ca, C, a, b, 7, 0)
    o["pchanged"] = int(bool(C != A))
    o["anet"] = netlib.proj_net(ca, A)
    return fn.ok(case, o)


def evidence(cases, results):
    eq = sum(1 for r in results if r["ok"] and r["obs"]["eq"] == 1)
    return {"equal_pairs": eq, "different_pairs": len(results) - eq}


def leaf_ok(path):
    return "pnet" in path or "anet" in path
