"""C30  walks, cycles and alternating walk clustering coefficients of multiplex networks"""
import random

from fn import rand_cfg, rand_net, decorate, failed, cat  # noqa: F401

PID = "C30"
TRACE = "TraceCC"
BAD = "BadWalks"
CASE_LIMIT = 60
RULE = "distinct networks with at least one cycle counted"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 30)
    out = []
    while len(out) < (200 if run.tier == "quick" else 2000):
        weighted = rng.random() < 0.3       # cycles are counted, whatever the weights are
        cfg = rand_cfg(rng, kinds=("mx",), asps=(1,), dirs=(False,), coups=[cat(1), cat(1, 1)], noedges=(0, 0, -1, 7) if weighted else (0,))
        jn = rand_net(rng, cfg, nnodes=(1, 2, 3, 3, 4, 4, 5), nlayers=(1, 2, 3, 3), weights=(1, 2, 3, 0) if weighted else (1,), density=rng.choice([0.2, 0.5, 0.6, 0.8, 1.0]))
        c = decorate(rng, {"net": jn}, cfg, scaled=weighted)
        c["nek"] = "int"
        c["cfg"] = cfg
        if not weighted:
            jn["noedge"] = 0
        c["weighted"] = weighted
        c["ab"] = rng.choice([[1, 1], [1, 2], [2, 1], [1, 0], [0, 1], [3, 1]])
        c["w"] = rng.choice([[1, 1, 2], [2, 1, 1], [4, 0, 0], [0, 2, 2], [1, 3, 0], [0, 4, 0], [0, 0, 4]])
        c["small"] = False
        c["contract"] = rng.random() < 0.25 and not weighted
        c["pad"] = 0
        out.append(c)
    # nodes without edges change nothing, however many there are
    for c in [c for c in out if c["cfg"]["full"] and 3 <= len(c["net"]["e"]) and all(x == "i" for x in c["lab"])][:1] + \
            [c for c in out if not c["cfg"]["full"] and 3 <= len(c["net"]["e"]) and all(x == "i" for x in c["lab"])][:1]:
        out.append(dict(c, pad=150000))
    return out


def in_child(f):
    """f() in a child process, which may crash"""
    import json
    import os
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, json.dumps(f()).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if st or not data:
        raise RuntimeError("the interpreter crashed (status %d)" % st)
    return json.loads(data)


def run(case):
    import netlib
    import fn
    from ccnum import fx, ints, MARK
    from pymnet import cc, transforms
    ctx = netlib.Ctx.of(case)
    net = fn.make(ctx, case["net"])
    full = case["cfg"]["full"]
    lab = [[ctx.L.lab(k, a) for a in sorted(case["net"]["el"][k])] for k in (0, 1)]
    atom = ctx.L.atom
    o = {"cycles": []}
    anets = [{}]
    full = full and not case["weighted"]        # the algorithms with matrices or a given aggregate are for weights of one
    if full:
        agg = transforms.aggregate(net, 1)
        anets.append({"anet": agg})
    if case["pad"]:
        net2 = fn.make(ctx, case["net"])
        for i in range(case["pad"]):
            net2.add_node(1000 + i)
        o["cycles"].append(["all", 0, 0, in_child(lambda: ints(cc.elementary_cycles(net2)))])
    a, b = [v / 2.0 for v in case["ab"]]
    w = [v / 4.0 for v in case["w"]]

    def coefs(f, *args, **kw):
        return {"vec": [fx(v) for v in f(*args, returnCVector=True, **kw)], "val": fx(f(*args, w1=a, w2=b, **kw)),
                "w3": fx(f(*args, w1=w[0], w2=w[1], w3=w[2], **kw))}
    o["lcc"], o["sncc"] = [], []
    for kw in anets:
        for n in lab[0]:
            for y in lab[1]:
                o["cycles"].append(["node-layer", atom(0, n), atom(1, y), ints(cc.elementary_cycles(net, n, y, **kw))])
                o["lcc"].append({"n": atom(0, n), "l": atom(1, y), "c": coefs(cc.lcc_aw, net, n, y, **kw)})
                if kw:
                    o["cycles"].append(["node-layer", atom(0, n), atom(1, y), ints(cc.cc_cycle_vector_anet(net, n, layer=y, **kw))])
            o["cycles"].append(["node", atom(0, n), 0, ints(cc.elementary_cycles(net, n, **kw))])
            if net.get_layers():
                sep = cc.sncc_aw_seplayers(net, n, w1=w[0], w2=w[1], w3=w[2], undefined=MARK)
                o["sncc"].append({"n": atom(0, n), "c": coefs(cc.sncc_aw, net, n, **kw), "cost": fx(cc.sncc_aw_layercost(net, n, a=a, b=b)), "sep": fx(sep)})
        for y in lab[1]:
            o["cycles"].append(["layer", 0, atom(1, y), ints(cc.elementary_cycles(net, layer=y, **kw))])
        o["cycles"].append(["all", 0, 0, ints(cc.elementary_cycles(net, **kw))])
    o["gcc"] = coefs(cc.gcc_aw, net)
    nls = list(net.iter_node_layers())
    o["avg"] = {"vec": [fx(v) for v in cc.avg_lcc_aw(net, returnCVector=True)], "val": fx(cc.avg_lcc_aw(net, w1=a, w2=b))} if nls else {"vec": [0] * 3, "val": 0}
    o["moreno"] = {"w3": fx(cc.gcc_moreno2_seplayers(net, *w)), "val": fx(cc.gcc_moreno2_seplayers(net, a, b, None))}
    vs = cc.cc_aw_vector(net)
    keys = [(n, y) for n in net for y in net.get_layers(1)]
    if any(len(v) != len(keys) for v in vs):
        raise ValueError("cc_aw_vector: %r entries for %r node-layers" % ([len(v) for v in vs], len(keys)))
    o["vectors"] = [[[atom(0, k[0]), atom(1, k[1])], ints(v[i] for v in vs)] for i, k in enumerate(keys)]
    o["seqs"] = []
    for n in lab[0]:
        t, d = cc.cc_sequence(net, n)
        ls = [atom(1, y) for y in net.A]
        if not len(t) == len(d) == len(ls):
            raise ValueError("cc_sequence: %r %r %r" % (t, d, ls))
        q = {"n": atom(0, n), "seq": [[ls[i]] + ints([t[i], d[i]]) for i in range(len(ls))]}
        q["wavg"] = fx(cc.cc_layers_wavg(net, n) if sum(d) else MARK)
        q["avg"] = fx(cc.cc_layers_avg(net, n) if d and all(d) else MARK)
        o["seqs"].append(q)
    o["super"] = fx(cc.gcc_super_graph(net))
    o["superno"] = fx(cc.gcc_super_graph_no_couplings(net))
    o["contr"], o["contro"] = [], []
    if case["contract"]:
        o["contr"] = [["m", fx(cc.gcc_contraction_m(net))], ["m-ct", fx(cc.gcc_contraction_m_ct(net))], ["m-full", fx(cc.gcc_contraction_m_full(net))]]
        o["contro"] = [["o2", fx(cc.gcc_contraction_o2(net))], ["o-full", fx(cc.gcc_contraction_o_full(net))]]
    o["mcycles"], o["msep"], o["msepvec"], o["mmoreno"] = [], [], [], []
    if full and len(lab[0]) > 1 and lab[1]:
        try:
            sorted(nls)
        except TypeError:       # matrices need labels that can be sorted
            pass
        else:
            for n in lab[0]:
                for y in lab[1]:
                    o["mcycles"].append([atom(0, n), atom(1, y), ints(cc.cc_cycle_vector_adj(net, n, y))])
            o["msep"] = [fx(cc.gcc_aw_seplayers_adj(net, *w))]
            o["msepvec"] = [[fx(v) for v in cc.gcc_aw_seplayers_adj(net, returnCVector=True)]]
            c = [0] * 10
            for v in o["mcycles"]:
                c = [p + q for p, q in zip(c, v[2])]
            if c[5] and c[6] + c[7] + c[8]:
                o["mmoreno"] = [fx(cc.gcc_moreno2(net, *w))]
    # the weights that are used when none are given
    d = o["defaults"] = {"lcc": [[atom(0, n), atom(1, y), fx(cc.lcc_aw(net, n, y))] for n in lab[0] for y in lab[1]],
                         "sncc": [[atom(0, n), fx(cc.sncc_aw(net, n)), fx(cc.sncc_aw_layercost(net, n)), fx(cc.sncc_aw_seplayers(net, n))]
                                  for n in lab[0] if lab[1]],
                         "gcc": fx(cc.gcc_aw(net)), "moreno": fx(cc.gcc_moreno2_seplayers(net)),
                         "avg": [fx(cc.avg_lcc_aw(net)), fx(cc.avg_lcc_aw(net, w1=w[0], w2=w[1], w3=w[2]))] if nls else []}
    d["matrix"] = [fx(cc.gcc_aw_seplayers_adj(net))] if o["msep"] else []
    d["mmoreno"] = [fx(cc.gcc_moreno2(net))] if o["mmoreno"] else []
    o["after"] = netlib.proj_net(ctx, net)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str(case["net"]) if any(any(v[3]) for v in res["obs"].get("cycles", [])) else None
