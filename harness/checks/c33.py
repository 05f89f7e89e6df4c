"""C33  JSON and edge list files"""
import random

from fn import rand_cfg, rand_net, decorate, failed, cat, ordi, none  # noqa: F401

PID = "C33"
TRACE = "TraceFiles"
BAD = "BadFiles"
RULE = "distinct networks with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 33)
    out = []
    while len(out) < (500 if run.tier == "quick" else 6000):
        cfg = rand_cfg(rng, kinds=("mx",), asps=(1,), coups=[cat(1), cat(2), ordi(1), none(0)], noedges=(0, 0, -1, 100))
        if rng.random() < 0.35:
            cfg["noedge"] = 0
            rows = [[rng.randrange(3), rng.randrange(5), rng.randrange(5), rng.choice([1, 1, 2, 3, 0])] for _ in range(rng.randrange(0, 9))]
            c = {"fn": "read", "rows": rows, "how": rng.choice(["lines", "file"]), "cfg": dict(cfg, coup=[rng.choice([cat(1), cat(2), ordi(1)])]),
                 "lab": ["i", "i"], "default": False, "nek": "int", "wfloat": False}
            if rng.random() < 0.3:
                c["default"] = True
                c["cfg"].update(coup=[cat(1)], full=True, dir=False)
            out.append(c)
            continue
        jn = rand_net(rng, cfg, big=0.06, nnodes=(0, 1, 2, 3, 4, 5))
        c = decorate(rng, {"fn": "write", "net": jn}, cfg, scaled=True)
        c["lab"] = rng.choice([["i", "i"], ["s", "i"], ["w", "j"]] if cfg["coup"][0]["t"] == "ordinal" else
                              [["i", "i"], ["s", "s"], ["i", "s"], ["s", "i"], ["w", "j"], ["j", "w"]])
        c["sep"] = rng.choice([["\t", "\n"], [" ", "\n"], [";", "\n"], [",", "|"]])
        out.append(c)
    return out


def run(case):
    import json
    import os
    import shutil
    import tempfile
    import netlib
    import fn
    from labels import num
    from pymnet import netio
    ctx = netlib.Ctx.of(case)
    t = tempfile.mkdtemp()
    try:
        if case["fn"] == "read":
            kw = {} if case["default"] else {"couplings": netlib.make_couplings(ctx)[0], "directed": case["cfg"]["dir"],
                                             "fullyInterconnected": case["cfg"]["full"]}
            lines = ["%d %d %d %s" % tuple(r) for r in case["rows"]]
            if case["how"] == "file":
                p = os.path.join(t, "n.edges")
                with open(p, "w") as f:
                    f.write("\n".join(lines) + ("\n" if lines else ""))
                lines = p
            return fn.ok(case, {"res": netlib.proj_net(ctx, netio.read_edge_files(lines, **kw))})
        net = fn.make(ctx, case["net"])
        atom = ctx.L.atom
        p = os.path.join(t, "n.json")
        docs = [netio.write_json(net)]
        netio.write_json(net, p)
        with open(p) as f:
            docs.append(f.read())
        p2 = os.path.join(t, "m.json")
        netio.write_json(net, open(p2, "w"))
        with open(p2) as f:
            docs.append(f.read())
        o = {"json": [], "files": []}
        for d in docs:
            d = json.loads(d)
            o["json"].append({"nodes": [atom(0, x["name"]) for x in d["nodes"]], "layers": [atom(1, x["name"]) for x in d["layers"]],
                              "links": [[x["source"], x["target"], ctx.V.num(x["value"]), x["layer"]] for x in d["links"]]})
        names = [{str(ctx.L.lab(k, a)): a for a in case["net"]["el"][k]} for k in (0, 1)]
        cs, rs = case["sep"]
        for i, kw in enumerate([{}, {"weights": False}, {"numericNodes": True, "masterFile": True}, {"masterFile": True, "columnSeparator": cs, "rowSeparator": rs}]):
            pre = os.path.join(t, "out%d_" % i)
            before = set(os.listdir(t))
            netio.write_edge_files(net, pre, **kw)
            new = sorted(set(os.listdir(t)) - before)
            order = [atom(0, n) for n in net]
            c, r = kw.get("columnSeparator", "\t"), kw.get("rowSeparator", "\n")
            f = {"layers": [], "master": [], "weights": int(kw.get("weights", True)),
                 "wanted": kw.get("masterFile", False), "written": any(x.endswith(".txt") for x in new)}
            for x in new:
                q = open(os.path.join(t, x)).read()
                if x.endswith(".txt"):
                    for line in q.splitlines():
                        fname, lay, rest = line.split(";")
                        if fname not in new or fname != "out%d_%s.edg" % (i, lay) or rest:
                            raise ValueError("master file line %r" % line)
                        f["master"].append(names[1][lay])
                    continue
                lay = names[1][x[len("out%d_" % i):-len(".edg")]]
                rows = []
                for line in q.split(r):
                    if not line:
                        continue
                    y = line.split(c)
                    if len(y) != 2 + f["weights"]:
                        raise ValueError("row %r" % line)
                    ends = [order[int(z)] if kw.get("numericNodes") else names[0][z] for z in y[:2]]
                    rows.append(ends + [ctx.V.num(float(y[2])) if f["weights"] else 1])
                f["layers"].append([lay, rows])
            o["files"].append(f)
        o["after"] = netlib.proj_net(ctx, net)
        return fn.ok(case, o)
    finally:
        shutil.rmtree(t)


def nontrivial(case, res):
    return str([case.get("net"), case.get("rows")]) if case.get("rows") or (case.get("net") or {}).get("e") else None
