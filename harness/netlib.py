"""Building real networks from abstract descriptions, and projecting them back.

Only the public interface of pymnet is used.
"""
import os
import sys
import warnings

warnings.filterwarnings("ignore")
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import pymnet  # noqa: E402
from pymnet import net as pnet  # noqa: E402

from labels import Labels, Values, num, BAD, BADNUM  # noqa: E402

COLON = slice(None, None, None)


class Ctx(object):
    """labels and weight encodings of one case"""

    def __init__(self, cfg, lab=None, nek="int", wfloat=False, scale=1):
        self.cfg = cfg
        self.asp = cfg["asp"]
        if lab is None:
            lab = ["i"] * (self.asp + 1)
        self.L = Labels(lab)
        self.V = Values(nek, cfg["noedge"], scale)
        self.scale = scale
        self.wfloat = wfloat

    def w(self, x):
        return self.V.py(x, self.wfloat)

    @classmethod
    def of(cls, case):
        return cls(case["cfg"], case.get("lab"), case.get("nek", "int"), case.get("wfloat", False), case.get("scale", 1))


def make_couplings(ctx):
    cs = []
    for k, c in enumerate(ctx.cfg["coup"]):
        if c["t"] == "network":
            cn = pymnet.MultilayerNetwork(aspects=0, directed=ctx.cfg["dir"])
            for s, r, w in c["e"]:
                cn[ctx.L.lab(k + 1, s), ctx.L.lab(k + 1, r)] = w * ctx.scale
            cs.append(cn)
        elif c["t"] == "none":
            cs.append("none" if c.get("form", 0) == 0 else None)
        elif ctx.scale == 1 and c["w"] == 1 and c.get("form", 0) == 1:
            cs.append(c["t"])
        elif ctx.scale == 1 and c["w"] == 1 and c.get("form", 0) == 2:
            cs.append((c["t"],))
        else:
            cs.append((c["t"], c["w"] * ctx.scale))
    if len(cs) == 1 and ctx.cfg["coup"][0].get("nolist"):
        return cs[0]
    return cs


def new(ctx):
    cfg = ctx.cfg
    if cfg["kind"] == "mx":
        return pymnet.MultiplexNetwork(couplings=make_couplings(ctx), directed=cfg["dir"],
                                       noEdge=ctx.V.noedge_py, fullyInterconnected=cfg["full"])
    return pymnet.MultilayerNetwork(aspects=cfg["asp"], directed=cfg["dir"],
                                    noEdge=ctx.V.noedge_py, fullyInterconnected=cfg["full"])


def long_index(ctx, a, b):
    out = []
    for k in range(ctx.asp + 1):
        out.append(ctx.L.lab(k, a[k]))
        out.append(ctx.L.lab(k, b[k]))
    return tuple(out)


def short_index(ctx, a, b):
    return (ctx.L.lab(0, a[0]), ctx.L.lab(0, b[0])) + tuple(ctx.L.lab(k, a[k]) for k in range(1, ctx.asp + 1))


def node(ctx, net, a):
    """the node object of node-layer a"""
    if ctx.asp == 0:
        return net[ctx.L.lab(0, a[0])]
    return net[ctx.L.nl(a)]


def getitem(ctx, net, a, b, f):
    if f == 1 and list(a[1:]) == list(b[1:]):
        return net[short_index(ctx, a, b)]
    if f == 2:
        return node(ctx, net, a)[ctx.L.lab(0, b[0]) if ctx.asp == 0 else ctx.L.nl(b)]
    return net[long_index(ctx, a, b)]


def malformed(ctx, net, a, b, rng):
    """accesses with a number of indices that names neither a node-layer nor an edge"""
    full, d = list(long_index(ctx, a, b)), ctx.asp + 1
    out = []

    def size():
        return [len(s) for s in net.slices] + [len(net.edges), len(list(net.iter_node_layers())) if ctx.asp else 0]
    for n in rng.sample(range(1, 2 * d + 4), 3):
        ix = tuple((full * 4)[:n])
        for write in (0, 1):
            if n in (d + 1, 2 * d) or n == d and not write:
                continue
            before = size()
            try:
                if write:
                    net[ix] = ctx.w(1)
                else:
                    net[ix]
                refused = 0
            except KeyError:
                refused = 1
            out.append([n, write, refused, before, size()])
    return out


def setitem(ctx, net, a, b, w, f):
    w = ctx.w(w)
    if f == 1 and list(a[1:]) == list(b[1:]):
        net[short_index(ctx, a, b)] = w
    elif f == 2:
        node(ctx, net, a)[ctx.L.lab(0, b[0]) if ctx.asp == 0 else ctx.L.nl(b)] = w
    else:
        net[long_index(ctx, a, b)] = w


def apply_op(ctx, net, op):
    k = op["k"]
    L = ctx.L
    if k == "node":
        net.add_node(L.lab(0, op["n"]))
    elif k == "nodeat":
        lay = L.layer(op["l"])
        if isinstance(lay, tuple) and op.get("f", 0) % 2 == 1:
            lay = list(lay)
        net.add_node(L.lab(0, op["n"]), layer=lay)
    elif k == "layer":
        if op["x"] == 1 and op.get("f", 0) % 2 == 1:
            net.add_layer(L.lab(1, op["n"]))
        else:
            net.add_layer(L.lab(op["x"], op["n"]), op["x"])
    elif k == "set":
        setitem(ctx, net, op["a"], op["b"], op["w"], op.get("f", 0))
    elif k == "iset":
        A = net.A[L.layer(op["l"])]
        if op.get("f", 0) % 2:
            A[L.lab(0, op["a"])][L.lab(0, op["b"])] = ctx.w(op["w"])
        else:
            A[L.lab(0, op["a"]), L.lab(0, op["b"])] = ctx.w(op["w"])
    elif k == "inode":
        net.A[L.layer(op["l"])].add_node(L.lab(0, op["n"]))
    elif k == "aset":
        m = pymnet.MultilayerNetwork(aspects=0, directed=ctx.cfg["dir"], noEdge=ctx.V.noedge_py)
        for n in op["ns"]:
            m.add_node(L.lab(0, n))
        for i, j, w in op["es"]:
            m[L.lab(0, i), L.lab(0, j)] = ctx.w(w)
        net.A[L.layer(op["l"])] = m
    else:
        raise ValueError(k)


def build(ctx, jn, order=None):
    """real network from a static description (a "jn" record)"""
    net = new(ctx)
    fill(ctx, net, jn)
    return net


def fill(ctx, net, jn):
    L = ctx.L
    for k in range(ctx.asp + 1):
        for a in jn["el"][k]:
            if k == 0:
                net.add_node(L.lab(0, a))
            else:
                net.add_layer(L.lab(k, a), k)
    if not jn["full"] and jn["asp"] > 0:
        for a in jn["nl"]:
            net.add_node(L.lab(0, a[0]), layer=L.layer(a[1:]))
    for i, (a, b, w) in enumerate(jn["e"]):
        setitem(ctx, net, a, b, w, i % 3)
    return net


# ---------------------------------------------------------------- projection

def all_nls(els):
    out = [[]]
    for e in els:
        out = [x + [y] for x in out for y in e]
    return out


def proj_elems(ctx, net):
    L = ctx.L
    asp = ctx.asp
    el = [[L.atom(k, x) for x in net.get_layers(k)] for k in range(asp + 1)]
    o = {"el": el,
         "len": len(net),
         "iter": [L.atom(0, x) for x in net],
         "nodes": [L.atom(0, x) for x in net.iter_nodes()],
         "nl": [L.unl(x) for x in net.iter_node_layers()],
         "nodesin": [], "layers": [], "elayers": []}
    if asp > 0:
        for lay in net.iter_layers():
            o["layers"].append(L.unlayer(lay))
            o["nodesin"].append([L.unlayer(lay), [L.atom(0, x) for x in net.iter_nodes(layer=lay)]])
        for k in range(1, asp + 1):
            o["elayers"].append([k, [L.atom(k, x) for x in net.iter_layers(aspect=k)]])
    return o


def proj_deg(ctx, net, a, dims, mode):
    """<<a, dims, mode, degree, strength, neighbours>> through a node object"""
    n = node(ctx, net, a)
    L = ctx.L
    if mode == "tot":
        d, s, it = n.deg_total(), n.str_total(), n.iter_total()
    elif mode == "in":
        d, s, it = n.deg_in(), n.str_in(), n.iter_in()
    elif mode == "def":  # the unqualified methods
        d, s, it = n.deg(), n.str(), iter(n)
        mode = "tot"
    else:
        d, s, it = n.deg_out(), n.str_out(), n.iter_out()
    return [a, dims, mode, num(d), ctx.V.num(s), [L.unl(x) for x in it]]


def proj_edges(ctx, net):
    L = ctx.L
    lst = []
    for e in net.edges:
        link, w = e[:-1], e[-1]
        if len(link) != 2 * (ctx.asp + 1):
            lst.append([[BAD], [BAD], BADNUM])
            continue
        a = [L.atom(k, link[2 * k]) for k in range(ctx.asp + 1)]
        b = [L.atom(k, link[2 * k + 1]) for k in range(ctx.asp + 1)]
        lst.append([a, b, ctx.V.enc(w)])
    return {"list": lst, "len": len(net.edges)}


def proj_intra(ctx, net, nodes):
    L = ctx.L
    out = {"keys": [], "nets": []}
    for lay in net.A:
        out["keys"].append(L.unlayer(lay))
        A = net.A[lay]
        present = [L.atom(0, x) for x in A]
        rd = []
        for i in nodes:
            for j in nodes:
                if i != j:
                    rd.append([i, j, ctx.V.enc(A[L.lab(0, i), L.lab(0, j)])])
        deg = []
        for x in A:
            n = A[x]
            deg.append([L.atom(0, x), num(n.deg_total()), num(n.deg_out()), num(n.deg_in())])
        out["nets"].append({"l": L.unlayer(lay), "nodes": present, "rd": rd, "deg": deg,
                            "nedges": len(A.edges)})
    return out


def proj_net(ctx, net):
    """Complete projection of a result network: elements, node-layers and the
    weight of every ordered pair of node-layers, read one by one."""
    L = ctx.L
    asp = net.aspects
    el = [[L.atom(k, x) for x in net.get_layers(k)] for k in range(asp + 1)]
    nls = [tuple(x) if asp > 0 else (x if isinstance(x, tuple) else (x,)) for x in net.iter_node_layers()]
    pairs = []
    V = Values("int", 0)
    ne = net.noEdge
    for a in nls:
        for b in nls:
            link = []
            for x, y in zip(a, b):
                link += [x, y]
            w = net[tuple(link)]
            if w != ne:
                pairs.append([[L.atom(k, x) for k, x in enumerate(a)],
                              [L.atom(k, x) for k, x in enumerate(b)], ctx.V.num(w)])
    return {"kind": "mx" if isinstance(net, pymnet.MultiplexNetwork) else "ml",
            "asp": asp, "dir": bool(net.directed), "full": bool(net.fullyInterconnected),
            "noedge": ctx.V.enc(ne) if ne == ctx.V.noedge_py else BADNUM,
            "el": el, "nl": [[L.atom(k, x) for k, x in enumerate(a)] for a in nls],
            "p": pairs, "ne": len(net.edges),
            "deg": [[[L.atom(k, x) for k, x in enumerate(a)],
                     num((net[a] if asp > 0 else net[a[0]]).deg())] for a in nls]}


def known_nls(ctx, net, cap=None, rng=None):
    """node-layer tuples over the elements the network has"""
    out = all_nls([[ctx.L.atom(k, x) for x in net.get_layers(k)] for k in range(ctx.asp + 1)])
    out.sort()
    if cap is not None and len(out) > cap:
        out = rng.sample(out, cap)
    return out


def view(ctx, net, a, dims, how):
    """the node object of a restricted to dims (-1: not restricted).
    how: "full"  net[i,:,s,r]       (2d indices)
         "short" net[i,:,s]         (d+1 indices, layers fixed to those of a)
         "node"  net[i,s][:,r]"""
    L = ctx.L
    if how == "short":
        return net[(L.lab(0, a[0]), COLON) + tuple(L.lab(k, a[k]) for k in range(1, ctx.asp + 1))]
    tgt = [COLON if d == -1 else L.lab(k, d) for k, d in enumerate(dims)]
    if how == "node":
        n = node(ctx, net, a)
        return n[tgt[0] if ctx.asp == 0 else tuple(tgt)]
    item = []
    for k in range(ctx.asp + 1):
        item += [L.lab(k, a[k]), tgt[k]]
    return net[tuple(item)]


def proj_view(ctx, net, a, dims, mode, how):
    L = ctx.L
    if how == "args":
        n = node(ctx, net, a)
        args = [None if d == -1 else L.lab(k, d) for k, d in enumerate(dims)]
        d = {"tot": n.deg_total, "in": n.deg_in, "out": n.deg_out, "def": n.deg}[mode](*args)
        s = {"tot": n.str_total, "in": n.str_in, "out": n.str_out, "def": n.str}[mode](*args)
        v = view(ctx, net, a, dims, "full") if -1 in dims else None
        if v is None:
            it = []
        else:
            it = {"tot": v.iter_total, "in": v.iter_in, "out": v.iter_out, "def": v.__iter__}[mode]()
    else:
        n = view(ctx, net, a, dims, how)
        d = {"tot": n.deg_total, "in": n.deg_in, "out": n.deg_out, "def": n.deg}[mode]()
        s = {"tot": n.str_total, "in": n.str_in, "out": n.str_out, "def": n.str}[mode]()
        it = {"tot": n.iter_total, "in": n.iter_in, "out": n.iter_out, "def": n.__iter__}[mode]()
    return [a, dims, "tot" if mode == "def" else mode, num(d), ctx.V.num(s), [L.unl(x) for x in it]]


def restricted(ctx, keep):
    """the same labels for networks over the tuple positions keep only"""
    import copy
    c = copy.copy(ctx)
    c.L = Labels([ctx.L.kinds[k] for k in keep])
    c.asp = len(keep) - 1
    return c
