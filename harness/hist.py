"""Histories of mutator calls: generation parameters and execution."""
import random

# ------------------------------------------------------------ (no pymnet here)


def ml_cfg(asp, dir, full, noedge=0):
    return {"kind": "ml", "asp": asp, "dir": dir, "full": full, "noedge": noedge, "coup": []}


def mx_cfg(coup, dir, full, noedge=0):
    return {"kind": "mx", "asp": len(coup), "dir": dir, "full": full, "noedge": noedge, "coup": coup}


def cat(w=1, form=0):
    return {"t": "categorical", "w": w, "form": form}


def ordi(w=1, form=0):
    return {"t": "ordinal", "w": w, "form": form}


def none(form=0):
    return {"t": "none", "w": 0, "form": form}


def netc(edges, dir=False):
    es = []
    for s, r, w in edges:
        es.append([s, r, w])
        if not dir:
            es.append([r, s, w])
    return {"t": "network", "w": 0, "e": es}


def ml_params(n, length, asps=(0, 1, 2), weights=(0, 1, 2, 3, -2), small=False):
    out = []
    for asp in asps:
        for d in (False, True):
            for full in ((True,) if asp == 0 else (True, False)):
                for noedge in (0, -1):
                    nodes = [0, 1, 2, 3] if asp < 2 else [0, 1, 2]
                    layers = [[0, 1, 2]] if asp == 1 else [[0, 1], [0, 1]][:asp] if asp <= 2 else [[0, 1], [0, 1], [0, 1]]
                    if asp == 3:
                        nodes = [0, 1]
                    ws = [w if w != 0 or noedge == 0 else noedge for w in weights]
                    if noedge == -1:
                        ws = ws + [0]
                    out.append({"cfg": ml_cfg(asp, d, full, noedge), "nodes": nodes, "layers": layers,
                                "weights": sorted(set(ws)), "n": n, "len": length})
    return out


def mx_coups():
    """coupling rules for 1 and 2 aspects (3 layers in aspect 1, 2 or 3 in aspect 2)"""
    one = [[cat(1)], [cat(2)], [cat(1, 1)], [cat(1, 2)], [ordi(1)], [ordi(3)], [ordi(1, 1)], [none(0)], [none(1)]]
    two = [[cat(1), cat(2)], [cat(2), ordi(3)], [ordi(1), none(0)], [ordi(2), ordi(1)], [none(1), cat(3)]]
    return one, two


def mx_params(n, length, weights=(0, 1, 2, 3, -2), network=True):
    out = []
    one, two = mx_coups()
    for coups, asp in ((one, 1), (two, 2)):
        for coup in coups:
            for d in (False, True):
                for full in (True, False):
                    noedge = 0
                    out.append({"cfg": mx_cfg(coup, d, full, noedge), "nodes": [0, 1, 2, 3] if asp == 1 else [0, 1, 2],
                                "layers": [[0, 1, 2, 3]] if asp == 1 else [[0, 1, 2], [0, 1]],
                                "weights": list(weights), "n": n, "len": length})
    for d in (False, True):
        for full in (True, False):
            if network:
                c = netc([[0, 1, 2], [1, 2, 3], [0, 3, 1]], d)
                out.append({"cfg": mx_cfg([c], d, full), "nodes": [0, 1, 2], "layers": [[0, 1, 2, 3]],
                            "weights": list(weights), "n": n, "len": length})
                out.append({"cfg": mx_cfg([cat(2), netc([[0, 1, 4]], d)], d, full), "nodes": [0, 1, 2],
                            "layers": [[0, 1, 2], [0, 1]], "weights": list(weights), "n": n, "len": length})
            out.append({"cfg": mx_cfg([cat(1)], d, full, -1), "nodes": [0, 1, 2], "layers": [[0, 1, 2]],
                        "weights": [-1, 0, 1, 2], "n": n, "len": length})
    return out


def big_params(n, length, ml=True, mx=True):
    """a few longer histories of larger networks"""
    out = []
    ws = [0, 1, 2, 3, -2]
    nodes, lays = list(range(9)), [0, 1, 2, 3, 4]
    if ml:
        for asp, d, full in ((0, False, True), (0, True, True), (1, False, False), (1, True, False), (1, False, True), (2, False, False), (2, True, True)):
            out.append({"cfg": ml_cfg(asp, d, full), "nodes": (list(range(12)), nodes, nodes[:5])[asp], "layers": ([], [lays], [[0, 1, 2], [0, 1, 2]])[asp],
                        "weights": ws, "n": n, "len": length})
    if mx:
        for coup, d, full in (([cat(1)], False, False), ([cat(2)], True, True), ([ordi(1)], False, False), ([none(0)], False, False), ([ordi(3)], True, False)):
            out.append({"cfg": mx_cfg(coup, d, full), "nodes": nodes, "layers": [lays], "weights": ws, "n": n, "len": length})
    return out


LABELS = {0: [["i"], ["j"], ["s"], ["e"], ["n"], ["w"], ["h"]],
          1: [["i", "i"], ["s", "s"], ["e", "e"], ["j", "s"], ["t", "i"], ["n", "w"], ["i", "n"], ["h", "h"]],
          2: [["i", "i", "i"], ["s", "s", "s"], ["e", "i", "s"], ["j", "e", "e"], ["t", "s", "i"], ["w", "n", "i"], ["h", "h", "h"]],
          3: [["i", "i", "i", "i"], ["s", "e", "s", "i"]]}
INTY = ("i", "j", "n")


def pick_labels(rng, cfg):
    lab = list(rng.choice(LABELS[cfg["asp"]]))
    if cfg["kind"] == "mx" and lab[0] == "t":   # net.A[layer][node] cannot take tuples as nodes
        lab[0] = "s"
    for k, c in enumerate(cfg["coup"]):
        if c["t"] == "ordinal" and lab[k + 1] not in INTY:
            lab[k + 1] = rng.choice(INTY)
    return lab


def pick_noedge(rng, cfg):
    return rng.choice(["int", "int", "int", "none", "inf", "float"]) if cfg["kind"] == "ml" else "int"


SCALES = (1, 1, 1, 0.125, 1048576)     # of all weights


def cases_from(run, params, finish):
    """TLC-generated behaviours decorated with label schemes etc."""
    rng = random.Random(run.seed * 7919 + 17)
    out = []
    for g in run.generate(params):
        P = params[g["p"] - 1]
        case = {"cfg": P["cfg"], "ops": g["ops"], "nodes": P["nodes"], "layers": P["layers"],
                "lab": pick_labels(rng, P["cfg"]), "nek": pick_noedge(rng, P["cfg"]),
                "wfloat": rng.random() < 0.2, "scale": rng.choice(SCALES)}
        if rng.random() < 0.12:
            case["lab"][0] = "x"
        for op in case["ops"]:
            if "f" not in op:
                op["f"] = rng.randrange(4)
        finish(rng, case)
        out.append(case)
    return out


def hist_failed(case, msg):
    return {"id": case["id"], "cfg": case["cfg"],
            "steps": [{"op": {"k": "node", "n": 0}, "ok": False, "exc": msg, "qfail": 1, "obs": {}}]}


def run_history(case, observe):
    """execute the operations of a case; observe(ctx, net, i, op) -> obs dict"""
    import netlib
    ctx = netlib.Ctx.of(case)
    net = netlib.new(ctx)
    steps = []
    for i, op in enumerate(case["ops"]):
        st = {"op": op, "ok": True, "exc": "", "qfail": 0, "obs": {}}
        try:
            netlib.apply_op(ctx, net, op)
        except Exception as e:
            st["ok"] = False
            st["exc"] = "%s: %s" % (type(e).__name__, str(e)[:100])
        try:
            st["obs"] = observe(ctx, net, i, op)
        except Exception as e:
            st["ok"] = False
            st["exc"] = "query: %s: %s" % (type(e).__name__, str(e)[:100])
            st["obs"] = {}
            st["qfail"] = 1   # a failing query is reported even where the write was rejected
        steps.append(st)
    return {"id": case["id"], "cfg": case["cfg"], "steps": steps}


def leaf_ok(path):
    """which recorded integers are observed values (not arguments of the query)"""
    i = path.index("obs")
    sec = path[i + 1]
    if sec == "rd":
        return path[-1] == 3
    if sec == "arity":
        return len(path) == i + 4 and path[-1] == 2
    if sec == "dg":
        return path[i + 3] in (3, 4, 5)
    if sec == "intra":
        return path[i + 2] == "keys" or path[-1] == "nedges" or "nodes" in path or ("rd" in path and path[-1] == 2)
    if sec == "elems":
        return "nodesin" not in path and "elayers" not in path
    return True
