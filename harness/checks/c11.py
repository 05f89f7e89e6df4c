"""C11  induced subnetworks"""
import random

from fn import rand_cfg, rand_net, decorate, failed  # noqa: F401

PID = "C11"
TRACE = "TraceXform"
BAD = "BadSub"
RULE = "distinct (network, selection, options) with at least one edge in the network"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 11)
    out = []
    for i in range(640 if run.tier == "quick" else 6000):
        cfg = rand_cfg(rng, asps=(0, 1, 1, 2, 2))
        asp = cfg["asp"]
        jn = rand_net(rng, cfg, big=0.03, nnodes=(0, 1, 2, 3, 4, 5) if asp < 2 else (1, 2, 3), nlayers=(1, 2, 3) if asp < 2 else (1, 2))
        if not cfg["full"]:   # every node on some layer
            jn["el"][0] = sorted(set(a[0] for a in jn["nl"]))
        sel = []
        for k in range(asp + 1):
            r = rng.random()
            if r < 0.25:
                sel.append([-1])
            elif r < 0.35:
                sel.append(list(jn["el"][k]))
            else:
                sel.append([a for a in jn["el"][k] if rng.random() < 0.6])
        if rng.random() < 0.2:       # a name that is not in the network
            k = rng.randrange(asp + 1)
            if sel[k] != [-1]:
                sel[k] = sel[k] + [9]
        into = ""
        if rng.random() < 0.3 and cfg["kind"] == "mx":
            into = "ml"
        elif rng.random() < 0.2 and cfg["full"] and asp > 0:
            into = "partial"
        # the given new network: its own no-edge value, directed although the original is not
        ono = odir = 0
        r2 = rng.random()
        if r2 < 0.3:
            into = into or rng.choice(["same", "ml"])
            ono = -5 if rng.random() < 0.8 else 0
            odir = int(rng.random() < 0.3)
        out.append(decorate(rng, {"net": jn, "sel": sel, "into": into, "ono": ono, "odir": odir, "nolinks": rng.random() < 0.15,
                                  "seqs": rng.randrange(3)}, cfg, scaled=True))
    return out


def run(case):
    import netlib
    import fn
    pymnet = netlib.pymnet
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    cfg = case["cfg"]
    args = []
    for k, s in enumerate(case["sel"]):
        if s == [-1]:
            args.append(None)
        else:
            args.append((list, set, tuple)[case["seqs"]](ctx.L.lab(k, a) for a in s))
    kw = {}
    if case["nolinks"]:
        kw["nolinks"] = True
    into = case["into"]
    if into == "ml" or (into == "same" and cfg["kind"] == "ml"):
        kw["newNet"] = pymnet.MultilayerNetwork(aspects=ctx.asp, directed=net.directed or bool(case["odir"]),
                                                noEdge=case["ono"] or net.noEdge,
                                                fullyInterconnected=net.fullyInterconnected)
    elif into == "same":
        kw["newNet"] = pymnet.MultiplexNetwork(couplings=netlib.make_couplings(ctx), directed=net.directed or bool(case["odir"]),
                                               noEdge=case["ono"] or net.noEdge,
                                               fullyInterconnected=net.fullyInterconnected)
    elif into == "partial":
        c2 = netlib.Ctx(dict(cfg, full=False), case["lab"], case["nek"], case["wfloat"], case["scale"])
        kw["newNet"] = netlib.new(c2)
    res = pymnet.subnet(net, *args, **kw)
    pr = netlib.proj_net(ctx, res)
    if case["ono"] and res.noEdge == case["ono"]:
        pr["noedge"] = case["ono"]
    return fn.ok(case, {"res": pr, "after": netlib.proj_net(ctx, net)})


def nontrivial(case, res):
    return str([case[k] for k in ("net", "sel", "into", "ono", "odir", "nolinks")]) if case["net"]["e"] else None
