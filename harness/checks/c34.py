"""C34  the NetworkX view and NetworkX functions on monoplex networks"""
import random

from fn import failed, decorate, ml_cfg, MARKER  # noqa: F401

PID = "C34"
TRACE = "TraceNx"
BAD = "BadNx"
RULE = "distinct histories ending with at least one edge"


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 34)
    out = []
    while len(out) < (600 if run.tier == "quick" else 5000):
        nek = rng.choice(["int", "int", "int", "none", "inf"])
        cfg = ml_cfg(0, False, True, rng.choice([0, 0, 0, -1]) if nek == "int" else MARKER)
        large = rng.random() < 0.05
        n = rng.randrange(7, 11) if large else rng.choice([2, 3, 4, 5, 6])
        ops, edges = [], set()
        pview = rng.choice([0.2, 0.5, 0.8, 1.0])
        for _ in range(rng.randrange(20, 40) if large else rng.randrange(0, 16)):
            v = rng.random() < pview
            a, b = rng.randrange(n), rng.randrange(n)
            if a == b and rng.random() < 0.7:
                continue
            w = rng.choice([1, 2, 3, 5] + ([0] if cfg["noedge"] else []))
            q = rng.random()
            if q < 0.15:
                ops.append({"k": "vnode" if v else "node", "a": a, "b": 0, "w": 0})
                continue
            if q < 0.35:
                k = "vdel" if v else "edge"
                w = cfg["noedge"]
                if edges and rng.random() < 0.7:
                    a, b = rng.choice(sorted(edges))
            elif q < 0.38:
                k = "vclear" if v else "edge"
            elif q < 0.5:
                k = "vplain" if v else "edge"
                if edges and rng.random() < 0.4:
                    a, b = rng.choice(sorted(edges))
            elif q < 0.6:
                k = "vweight" if v else "edge"
                if edges and rng.random() < 0.8:
                    a, b = rng.choice(sorted(edges))
            else:
                k = "vedge" if v else "edge"
            if k in ("vedge", "vplain") or k == "edge" and w != cfg["noedge"]:
                edges.add((a, b))
            ops.append({"k": k, "a": a, "b": b, "w": w, "form": rng.randrange(3)})
        c = {"ops": ops, "cfg": cfg, "lab": [rng.choice(["i", "j", "s", "w", "t", "n", "h"])], "nek": nek, "wfloat": False,
             "sub": [rng.randrange(n) for _ in range(rng.randrange(0, 4))], "src": rng.randrange(n), "k": rng.randrange(1, 4), "first": rng.random() < 0.2}
        out.append(c)
    return out


def run(case):
    import netlib
    import fn
    import networkx
    from labels import num
    from pymnet import nxwrap, MultilayerNetwork
    ctx = netlib.Ctx.of(case)
    Graph = networkx.classes.graph.Graph
    networkx.Graph = Graph
    tup = case["lab"][0] == "t"
    lab = lambda a: ctx.L.lab(0, a)             # noqa: E731
    own = (lambda a: nxwrap.ntuple(lab(a))) if tup else lab
    atom = lambda n: ctx.L.atom(0, n)           # noqa: E731
    net = netlib.new(ctx)
    view = nxwrap.autowrap(net) if case["first"] else nxwrap.MonoplexGraphNetworkxView(net)

    def triples(es):
        return [[atom(a), atom(b), num(w)] for a, b, w in es]

    def snap():
        o = {"nodes": [atom(n) for n in net], "edges": triples(net.edges)}
        o["vnodes"] = [atom(n) for n in view]
        o["vlen"] = len(view)
        o["vadj"] = [[atom(a), atom(b), num(view[a][b]["weight"])] for a in view for b in view[a]]
        o["vedges"] = triples((a, b, d["weight"]) for a, b, d in view.edges(data=True))
        o["vdeg"] = [[atom(a), d] for a, d in view.degree()]
        o["size"] = [view.number_of_edges(), num(view.size("weight"))]
        o["vattr"] = [[len(view[a][b]), int(list(view[a][b]) == ["weight"]), int("color" in view[a][b])] for a in view for b in view[a]]
        o["ndeg"] = [[atom(n), net[n].deg()] for n in net]
        o["has"] = [[atom(a), atom(b)] for a in view for b in view if view.has_edge(a, b)]
        return o

    def do(op):
        k, f = op["k"], op.get("form", 0)
        a, b, w = lab(op["a"]), lab(op["b"]), op["w"]
        if k == "node":
            net.add_node(own(op["a"]))
        elif k == "edge":
            net[own(op["a"]), own(op["b"])] = ctx.w(w)
        elif k == "vnode":
            view.add_node(a) if f else view.add_nodes_from([a])
        elif k == "vedge":
            if f == 0:
                view.add_edge(a, b, weight=w)
            elif f == 1:
                view.add_weighted_edges_from([(a, b, w)])
            else:
                view.add_edge(a, b, color="red", weight=w)
        elif k == "vplain":
            if f == 0:
                view.add_edge(a, b)
            elif f == 1:
                view.add_edges_from([(a, b)])
            else:
                view.add_edge(a, b, color="red")
        elif k == "vdel":
            view.remove_edge(a, b)
        elif k == "vweight":
            view[a][b]["weight"] = w
        elif k == "vclear":
            view.clear_edges()
    ref = []
    half = None
    for i, op in enumerate(case["ops"] + [None]):
        if i == len(case["ops"]) // 2:
            half = snap()
        if op is None:
            break
        try:
            do(op)
            ref.append(0)
        except (KeyError, networkx.NetworkXException):
            ref.append(1)
    o = {"refused": ref, "half": half, "last": snap(), "alg": []}

    def graph(g, at=atom):
        if type(g) is not MultilayerNetwork:
            return {"net": 0, "nodes": [], "deg": [], "adj": []}
        return {"net": 1, "nodes": [at(n) for n in g], "deg": [[at(n), g[n].deg()] for n in g],
                "adj": [[at(a), at(b), num(w)] for a, b, w in g.edges] + [[at(b), at(a), num(w)] for a, b, w in g.edges if a != b]}
    def simple(s):
        q = {}
        q["core"] = [[atom(n), d] for n, d in nxwrap.core_number(net).items()]
        q["kcore"] = graph(nxwrap.k_core(net, case["k"]))
        q["tri"] = [[atom(n), d] for n, d in nxwrap.triangles(net).items()]
        q["connected"] = int(nxwrap.is_connected(net))
        q["power"] = graph(nxwrap.power(net, 2))
        q["maxst"] = graph(nxwrap.maximum_spanning_tree(net))
        q["rest"] = graph(nxwrap.restricted_view(net, [lab(a) for a in case["sub"] if own(a) in net], []))
        es = list(net.edges)
        q["half"] = triples(es[::2])
        q["esub"] = graph(nxwrap.edge_subgraph(net, [(a, b) for a, b, w in es[::2]]))
        q["ord"] = [atom(n) for n in net]
        q["ints"] = graph(nxwrap.convert_node_labels_to_integers(net), lambda i: i)
        q["matrix"] = [[num(v) for v in r] for r in nxwrap.to_numpy_array(net).tolist()]
        q["attr"] = [[atom(a), atom(b), num(w)] for (a, b), w in nxwrap.get_edge_attributes(net, "weight").items()]
        other, full = MultilayerNetwork(aspects=0), MultilayerNetwork(aspects=0)
        ch = [own(a) for a in case["sub"] if own(a) in net]
        for h, ns in ((other, ch), (full, list(net))):
            for n in ns:
                h.add_node(n)
            for a, b in zip(ch, ch[1:]):
                if a != b:
                    h[a, b] = 8
        q["hord"] = [atom(n) for n in other]
        q["compose"] = graph(nxwrap.compose(net, other))
        q["disjoint"] = graph(nxwrap.disjoint_union(net, H=other) if case["first"] else nxwrap.disjoint_union(net, other), lambda i: i)
        q["both"] = graph(nxwrap.intersection(net, full))
        q["diff"] = graph(nxwrap.difference(net, full))
        pair = MultilayerNetwork(aspects=0)
        pair["p", "q"] = 7
        q["prod"] = graph(nxwrap.cartesian_product(net, pair), lambda n: 10 * atom(n[0]) + "pq".index(n[1]))
        q["line"] = graph(nxwrap.line_graph(net), lambda n: 10 * min(atom(x) for x in n) + max(atom(x) for x in n))
        q["ring"] = graph(nxwrap.watts_strogatz_graph(case["k"] + 3, 2, 0), lambda i: i)
        cp = view.copy()
        q["copy"] = graph(cp.net)
        cp.add_node("another node")
        cp.add_edge(s, "yet another", weight=9)
        for a, b, w in es[:1]:
            cp[a][b]["weight"] = 9
        d = view[s].copy()
        d["yet another"] = 9
        for a, b, w in es[:1]:
            view[a][b].copy()["weight"] = 9
        V = nxwrap.MonoplexGraphNetworkxView
        q["ofdata"] = [graph(V(data=x).net) for x in (view, networkx.Graph(view), nxwrap.to_dict_of_dicts(net))]
        q["new"] = graph(nxwrap.MonoplexGraphNetworkxNew(view).net)
        return q
    s = own(case["src"])
    if s in net and all(e[2] != 0 for e in net.edges):     # new graphs take 0 as "no edge"
        q = {}
        q["comps"] = [[atom(n) for n in y] for y in nxwrap.connected_components(net)]
        q["ncomps"] = nxwrap.number_connected_components(net)
        q["subgraph"] = graph(nxwrap.subgraph(net, [lab(a) for a in case["sub"] if own(a) in net]))
        q["ego"] = graph(nxwrap.ego_graph(net, s))
        q["empty"] = graph(nxwrap.create_empty_copy(net))
        q["compl"] = graph(nxwrap.complement(net))
        d = nxwrap.to_dict_of_dicts(net)
        q["dod"] = [[atom(a), atom(b), num(d[a][b]["weight"])] for a in d for b in d[a]]
        up = {n: nxwrap.ntuple(("up", n)) if tup else "up%d" % atom(n) for n in net}
        down = {v: k for k, v in up.items()}

        def at(n):
            return atom(down[n]) + 10 if n in down else atom(n)
        moved = nxwrap.relabel_nodes(net, up)
        q["relabel"] = graph(moved, at)
        q["union"] = graph(nxwrap.union(net, H=moved) if case["first"] else nxwrap.union(net, moved), at)
        q["dist"] = [[atom(n), num(v)] for n, v in nxwrap.single_source_dijkstra_path_length(net, s).items()] \
            if all(e[2] > 0 for e in net.edges) else []
        q["simple"] = []
        if all(a != b for a, b, w in net.edges):
            q["simple"].append(simple(s))
        q["mst"] = graph(nxwrap.minimum_spanning_tree(net))
        q["restored"] = int(networkx.Graph is Graph)
        try:
            nxwrap.shortest_path(net, s, "no such node")
            q["refused"] = 0
        except networkx.NetworkXException:
            q["refused"] = 1
        q["restored2"] = int(networkx.Graph is Graph)
        networkx.Graph = Graph
        o["alg"].append(q)
    o["after"] = snap()
    return fn.ok(case, o)


def nontrivial(case, res):
    return str(case["ops"]) if res["ok"] and res["obs"]["last"]["edges"] else None
