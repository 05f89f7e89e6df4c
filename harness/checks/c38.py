"""C38  figures drawn with Matplotlib"""
import random

from fn import rand_cfg, rand_net, decorate, failed, prod  # noqa: F401

PID = "C38"
TRACE = "TraceDraw"
BAD = "BadFigure"
RULE = "distinct (network, properties) with at least one edge"

#        name            family   type
PROPS = [("layerColor", "layer", "color"), ("layerAlpha", "layer", "unit"), ("layerLabel", "layer", "label"),
         ("layerLabelLoc", "layer", "loc"), ("layerLabelSize", "layer", "font"), ("layerLabelColor", "layer", "color"),
         ("layerLabelStyle", "layer", "fstyle"), ("layerLabelAlpha", "layer", "unit"), ("layerOrder", "layer", "key"),
         ("nodeLabel", "node", "label"), ("nodeLabelSize", "node", "font"), ("nodeLabelColor", "node", "color"),
         ("nodeLabelStyle", "node", "fstyle"), ("nodeLabelAlpha", "node", "unit"), ("nodeSize", "node", "size"),
         ("nodeColor", "node", "color"), ("edgeColor", "edge", "color"), ("edgeWidth", "edge", "num"),
         ("edgeAlpha", "edge", "unit"), ("edgeZ", "edge", "unit"), ("edgeStyle", "edge", "lstyle")]
COLORS = ["#ff0000", "#00ff00", "#0000ff", "#ff00ff", "#29b7c1", "#000000", "#808080"]
LSTYLES = ["-", "--", "-.", ":"]
FSTYLES = ["normal", "italic", "oblique"]
LOCS = [(1, 1), (0, 0), (0.5, 1), (1, 0)]
MAP = "viridis"
NUMS = {"unit": [0, 6, 12, 30, 45, 60], "num": [30, 60, 90, 150, 300], "font": [300, 480, 720], "size": [0, 6, 12, 18], "key": [0, 60, 120, -60]}
NTAGS = {"color": 4, "label": 4, "loc": 4, "fstyle": 3, "lstyle": 4}
# what the documentation of draw gives when nothing is asked for
DEFAULTS = {
    "layerColor": ({}, ["tag", 4]), "layerAlpha": ({}, ["num", 45]), "layerLabel": ({"rule": "name"}, ["none"]),
    "layerLabelLoc": ({}, ["tag", 0]), "layerLabelSize": ({}, ["none"]), "layerLabelColor": ({}, ["tag", 5]),
    "layerLabelStyle": ({}, ["tag", 0]), "layerLabelAlpha": ({}, ["num", 60]), "layerOrder": ({"rule": "name"}, ["num", 0]),
    "nodeLabel": ({"rule": "nodename"}, ["none"]), "nodeLabelSize": ({}, ["none"]), "nodeLabelColor": ({}, ["tag", 5]),
    "nodeLabelStyle": ({}, ["tag", 0]), "nodeLabelAlpha": ({}, ["num", 60]), "nodeSize": ({"rule": "scaled", "coeff": 12}, ["none"]),
    "nodeColor": ({}, ["tag", 5]), "edgeColor": ({}, ["tag", 6]), "edgeWidth": ({}, ["num", 90]), "edgeAlpha": ({}, ["num", 60]),
    "edgeZ": ({}, ["num", 0]), "edgeStyle": ({"rule": "edgetype", "intra": ["tag", 0], "inter": ["tag", 3]}, ["tag", 0])}


def models(tier):
    return []


def value(rng, typ):
    if typ in NTAGS:
        return ["tag", rng.randrange(NTAGS[typ])]
    return ["num", rng.choice(NUMS[typ])]


def a_rule(rng, fam, typ, square):
    pal = "par" if typ == "fstyle" else "pal"
    seq = [value(rng, typ) for _ in range(rng.choice([1, 2, 3]))]
    seq = [v if v != ["num", 0] else ["num", 6] for v in seq]
    out = [{}]
    if typ == "key":
        return rng.choice([{"rule": "name"}, {"rule": "name", "f": "val"}])
    if typ != "size" and typ != "loc" and fam != "edge":
        out.append({"rule": "name", "f": "big" if typ == "font" else "val" if typ in NUMS else pal})
    if typ != "size":
        out.append({"rule": "order", "seq": seq})
        # without a sequence: the number of the object
        if typ == "label":
            out.append(rng.choice([{"rule": "order"}, {"rule": "order", "f": "inc"}, {"rule": "order", "f": "pal"}]))
        elif typ == "font":
            out.append({"rule": "order", "f": "inc", "scaleby": rng.choice([120, 480])})
        elif typ == "color":
            out.append(rng.choice([{"rule": "order", "f": "pal"}, {"rule": "order", "scaleby": rng.choice([1, 4]), "colormap": MAP}]))
        elif typ == "num":
            out.append(rng.choice([{"rule": "order"}, {"rule": "order", "f": "inc", "scaleby": 30}]))
        elif typ == "unit" and fam != "edge":
            out.append({"rule": "order", "f": "inc", "scaleby": rng.choice([3, 4])})
    if typ == "label":
        out += [{"rule": "name"}]
        if fam == "node":
            out += [{"rule": "nodename"}, {"rule": "degree"}, {"rule": "layer"}, {"rule": "degree", "f": "pal"}, {"rule": "nodename", "f": "pal"}]
    if fam == "node" and typ in ("color", "unit", "num", "fstyle"):
        if typ == "color":
            out += [{"rule": "degree", "f": "pal"}, {"rule": "layer", "f": "pal"}, {"rule": "degree", "scaleby": rng.choice([2, 5, 6]), "colormap": MAP},
                    {"rule": "degree", "f": "inc", "scaleby": 4, "colormap": MAP}]
        elif typ == "fstyle":
            out += [{"rule": "layer", "f": "par"}]
        else:
            out += [{"rule": "degree", "scaleby": rng.choice([2, 4])}, {"rule": "degree", "f": "inc", "scaleby": 3},
                    {"rule": "layer", "f": "val"}]
    if typ == "font" and fam == "node":
        out += [{"rule": "degree", "f": "inc", "scaleby": rng.choice([60, 120])}, {"rule": "layer", "f": "big"}]
    if typ == "size":
        out = [{"rule": "degree", "scaleby": rng.choice([1, 2, 3])}, {"rule": "layer", "f": "val"}, {"rule": "degree", "f": "inc", "scaleby": 2}]
        if square:
            out += [{"rule": "scaled", "coeff": rng.choice([6, 12, 18])}, {"rule": "scaled", "scaleby": rng.choice([6, 12])}, {"rule": "degree", "propscale": rng.choice([6, 12])},
                    {"rule": "scaled", "coeff": 12, "scaleby": 120}, {"rule": "degree", "propscale": 6, "scaleby": 60}]
    if fam == "edge":
        e = {"rule": "edgetype"}
        for k in rng.choice([["intra", "inter"], ["intra"], ["inter"], []]):
            e[k] = value(rng, typ)
        out += [e, e]
        if typ == "color":
            out += [{"rule": "edgeweight", "scaleby": rng.choice([5, 12, 20]), "colormap": MAP}, {"rule": "edgeweight", "f": "pal"},
                    {"rule": "layer", "f": "pal"}]
        elif typ == "lstyle":
            out += [{"rule": "edgeweight", "f": "pal"}, {"rule": "layer", "f": "pal"}]
        else:
            out += [{"rule": "edgeweight", "scaleby": rng.choice([5, 10, 15])}, {"rule": "edgeweight", "f": "inc", "scaleby": 12}]
    return rng.choice(out)


def cases(run):
    rng = random.Random(run.seed * 31 + 38)
    out = []
    while len(out) < (260 if run.tier == "quick" else 2400):
        cfg = rand_cfg(rng, asps=(1,), noedges=(0, 0, -1, 100))
        square = rng.random() < 0.6
        jn = rand_net(rng, cfg, nnodes=(1, 4, 4) if square else (2, 3), nlayers=(1, 2, 3), weights=(1, 2, 3),
                      density=rng.choice([0.2, 0.4, 0.7]), selfloops=rng.random() < 0.3)
        nls = prod(jn["el"]) if cfg["full"] else [list(a) for a in jn["nl"]]
        c = {"net": jn}
        grid = [[x, y] for x in range(0, 241, 24) for y in range(0, 241, 24)]
        xy = rng.sample(grid, len(jn["el"][0]) + len(nls))
        c["ncoords"] = [[v] + xy[i] for i, v in enumerate(jn["el"][0])]
        c["nlcoords"] = [[a] + xy[-1 - i] for i, a in enumerate(nls) if rng.random() < 0.2]
        c["gap"] = rng.choice([60, 60, 30, 120])
        c["pad"] = rng.choice([6, 12, 24])
        c["shape"] = rng.choice(["rectangle", "circle"])
        c["cam"] = [rng.choice([-51, 0, 30]), rng.choice([22, 0, 90])]
        c["own"] = rng.random() < 0.3
        c["axes"] = True
        # arguments left out: what the documentation gives
        c["omit"] = []
        if rng.random() < 0.3:
            c["cam"], c["omit"] = [-51, 22], ["azim", "elev"]
        if rng.random() < 0.3:
            c["gap"], c["omit"] = 60, c["omit"] + ["layergap"]
        if rng.random() < 0.3:
            c["pad"], c["omit"] = 6, c["omit"] + ["layerPadding"]
        if rng.random() < 0.3:
            c["shape"], c["omit"] = "rectangle", c["omit"] + ["layershape"]
        c["figsize"] = rng.choice([[], [], [3, 4], [8, 2]])
        edges = [[e[0], e[1]] for e in jn["e"]]
        items = {"layer": [[x] for x in jn["el"][1]], "node": nls, "edge": edges}
        busy = rng.choice([0.15, 0.4])
        props, given = {}, {}
        for name, fam, typ in PROPS:
            r, d = DEFAULTS[name]
            p = {"dict": [], "rule": dict(r), "def": d}
            g = []
            must = name == "nodeSize" and not square
            if must or rng.random() < busy:
                if must or rng.random() < 0.7:
                    p["rule"] = a_rule(rng, fam, typ, square)
                    if must and rng.random() < 0.3:
                        p["rule"] = {}
                    g.append("Rule")
                if p["rule"].get("rule") is None or rng.random() < 0.3 or p["rule"].get("rule") == "edgetype":
                    p["def"] = value(rng, typ)
                    if typ == "label" and rng.random() < 0.4:
                        p["def"] = ["none"]
                    g.append("default")
                if rng.random() < 0.4 and items[fam] and typ != "key":
                    for it in rng.sample(items[fam], rng.randrange(1, len(items[fam]) + 1)):
                        if fam == "edge" and not cfg["dir"] and rng.random() < 0.5:
                            it = [it[1], it[0]]
                        p["dict"].append([it, value(rng, typ)])
                    g.append("Dict")
                if typ == "key" and rng.random() < 0.6:
                    ks = rng.sample([0, 30, 60, 90, -60], len(items[fam]))
                    if rng.random() < 0.3:
                        p["rule"], p["def"] = {}, ["num", 60]
                        p["dict"] = [[it, ["num", rng.choice([0, 60, 120])]] for it in items[fam] if rng.random() < 0.6]
                        g = ["Rule", "default", "Dict"]
                    else:
                        p["dict"] = [[it, ["num", k]] for it, k in zip(items[fam], ks)]
                        g.append("Dict")
            if must and p["rule"].get("rule") is None and p["def"] == ["none"]:
                p["def"] = ["num", 12]
                g.append("default")
            props[name], given[name] = p, g
        c["props"], c["given"] = props, given
        c["fam"] = {name: fam for name, fam, typ in PROPS}
        c = decorate(rng, c, cfg, 0)
        out.append(c)
    return out


def pyvalue(v, typ, labels):
    if v[0] == "none":
        return None
    if v[0] == "num":
        return v[1] / 60.
    if v[0] == "tag":
        return {"color": COLORS, "lstyle": LSTYLES, "fstyle": FSTYLES, "loc": LOCS, "label": ["L%d" % i for i in range(4)]}[typ][v[1]]
    raise ValueError(v)


def pyrule(L, rule, fam, typ):
    r = {}
    what = rule.get("rule")
    for k, v in rule.items():
        if k == "rule":
            r["rule"] = v
        elif k == "seq":
            r["sequence"] = [pyvalue(x, typ, L) for x in v]
        elif k in ("intra", "inter"):
            r[k] = pyvalue(v, typ, L)
        elif k == "coeff":
            r["scalecoeff"] = v / 60.
        elif k in ("scaleby", "propscale"):
            r[k] = v / 60.
        elif k == "colormap":
            r[k] = v
        elif k == "f":
            r["f"] = function(L, v, what, fam, typ)
    return r


def function(L, f, what, fam, typ):
    def atom(x):
        if what in ("degree", "edgeweight", "scaled", "order"):
            return int(x + 1e-9)
        if what == "layer" and fam == "edge" and x == "interlayer":
            return 3
        if what == "layer" or (what == "name" and fam == "layer"):
            return L.atom(1, x)
        if what == "nodename":
            return L.atom(0, x)
        return sum(L.unl(x))
    if f == "inc":
        return lambda x: x + 1
    if f == "pal":
        return lambda x: pyvalue(["tag", atom(x) % 4], typ, L)
    if f == "par":
        return lambda x: pyvalue(["tag", atom(x) % 2], typ, L)
    if f == "big":
        return lambda x: 1 + atom(x) % 3
    return lambda x: 6 * (1 + atom(x) % 3) / 60.


def strings(L, nls, els):
    out = [[["tag", i], "L%d" % i] for i in range(4)]
    out += [[["num", 60 * k], str(k)] for k in range(0, 60)]
    out += [[["lay", l], str(L.lab(1, l))] for l in els[1]]
    out += [[["node", v], str(L.lab(0, v))] for v in els[0]]
    out += [[["nl"] + list(a), str(L.nl(a))] for a in nls]
    return out


def num60(v):
    n = round(float(v) * 60)
    return ["num", int(n)] if abs(n - float(v) * 60) < 1e-6 else ["num", -999983]


def rat(v):
    from fractions import Fraction
    f = Fraction(float(v)).limit_denominator(60000)
    if abs(float(f) - float(v)) > 1e-11:
        return [-999983, 1]
    return [f.numerator, f.denominator]


_cm = {}


def color(c):
    from matplotlib import colors
    import matplotlib
    if not _cm:
        m = matplotlib.colormaps[MAP]
        for n in range(61):
            for d in (0, -1e-9, 1e-9):
                _cm.setdefault(tuple(round(float(x), 5) for x in m(n / 60. + d)[:3]), ["cm", n])
        for i, x in enumerate(COLORS):
            _cm[tuple(round(y, 5) for y in colors.to_rgb(x))] = ["tag", i]
    return _cm.get(tuple(round(float(x), 5) for x in colors.to_rgba(c)[:3]), ["tag", -9])


def look(fig, ax):
    o = {"layers": [], "ltexts": [], "nodes": [], "ntexts": [], "lines": []}
    for p in ax.patches:
        s = p._segment3d
        lo = [min(float(q[k]) for q in s) for k in range(3)]
        hi = [max(float(q[k]) for q in s) for k in range(3)]
        r = (hi[0] - lo[0]) / 2
        if lo[:2] == [0, 0] and hi[:2] == [1, 1]:
            corners = all(q[0] in (0, 1) and q[1] in (0, 1) for q in s)
            o["layers"].append({"z": rat(lo[2]), "color": color(p.get_facecolor()), "alpha": num60(p.get_facecolor()[3]),
                                "shape": "rectangle" if corners else "circle"})
        else:
            o["nodes"].append({"p": [rat((lo[0] + hi[0]) / 2), rat((lo[1] + hi[1]) / 2), rat(lo[2])], "r": rat(r),
                               "color": color(p.get_facecolor())})
    return o


def texts(ax, o, nlayers):
    for i, t in enumerate(ax.texts):
        x, y, z = t.get_position_3d()
        g = {"text": t.get_text(), "size": num60(t.get_fontsize()), "color": color(t.get_color()),
             "style": ["tag", FSTYLES.index(t.get_fontstyle())], "alpha": num60(1 if t.get_alpha() is None else t.get_alpha())}
        # layer labels are exactly on the plane of the layer, labels of nodes just above it
        if abs(round(float(z), 2) - float(z)) < 1e-9:
            g["z"], g["loc"] = rat(z), (["tag", LOCS.index((x, y))] if (x, y) in LOCS else ["tag", -9])
            o["ltexts"].append(g)
        else:
            g["p"] = [rat(x), rat(y), rat(round(float(z), 2))]
            o["ntexts"].append(g)


def arguments(L, case):
    kw = {}
    key = {"layer": lambda it: L.lab(1, it[0]), "node": lambda it: L.nl(it), "edge": lambda it: (L.nl(it[0]), L.nl(it[1]))}
    for name, fam, typ in PROPS:
        p = case["props"][name]
        for g in case["given"][name]:
            if g == "Dict":
                kw[name + "Dict"] = {key[fam](it): pyvalue(v, typ, L) for it, v in p["dict"]}
            elif g == "Rule":
                kw[name + "Rule"] = pyrule(L, p["rule"], fam, typ)
            else:
                kw["default" + name[0].upper() + name[1:]] = pyvalue(p["def"], typ, L)
    return kw


def run(case):
    import netlib
    import fn
    import matplotlib.pyplot as plt
    ctx = netlib.Ctx.of(case)
    L = ctx.L
    net = fn.make(ctx, case["net"])
    kw = arguments(L, case)
    random.seed(case["id"])
    ax = None
    if case["own"]:
        f0 = plt.figure()
        ax = f0.add_subplot(111, projection="3d")
        kw["ax"] = ax
    if case["figsize"]:
        kw["figsize"] = tuple(case["figsize"])
    much = {"layershape": case["shape"], "layergap": case["gap"] / 60., "layerPadding": case["pad"] / 120.,
            "azim": case["cam"][0], "elev": case["cam"][1]}
    kw.update({k: v for k, v in much.items() if k not in case["omit"]})
    fig = netlib.pymnet.draw(net, layout="random",
                             nodeCoords={L.lab(0, v): (x / 120., y / 120.) for v, x, y in case["ncoords"]},
                             nodelayerCoords={L.nl(a): (x / 120., y / 120.) for a, x, y in case["nlcoords"]}, **kw)
    try:
        axes = len(fig.axes) == 1 and (ax is None or fig.axes[0] is ax)
        ax = fig.axes[0]
        o = look(fig, ax)
        texts(ax, o, len(case["net"]["el"][1]))
        for l in ax.lines:
            xs, ys, zs = l.get_data_3d()
            for i in range(len(xs) - 1):
                o["lines"].append({"p": [rat(xs[i]), rat(ys[i]), rat(zs[i])], "q": [rat(xs[i + 1]), rat(ys[i + 1]), rat(zs[i + 1])],
                                   "color": color(l.get_color()), "width": num60(l.get_linewidth()),
                                   "style": ["tag", LSTYLES.index(l.get_linestyle())],
                                   "alpha": num60(1 if l.get_alpha() is None else l.get_alpha()),
                                   "zo": int(round(l.get_zorder() * 1000000))})
        o["cam"] = [int(round(ax.azim)), int(round(ax.elev))]
        o["axes"] = axes
        o["figsize"] = [int(round(v)) for v in fig.get_size_inches()]
    finally:
        plt.close("all")
    nls = [L.unl(a) for a in net.iter_node_layers()]
    case = dict(case, strs=strings(L, nls, case["net"]["el"]))
    o["after"] = netlib.proj_net(ctx, net)
    o["refused"] = []
    if case["id"] % 8 == 0:
        bad = [("layerColorRule", "degree"), ("layerLabelRule", "nodename")] + \
              ([("nodeColorRule", "nodename"), ("nodeColorRule", "edgeweight"), ("nodeSizeRule", "name"), ("nodeLabelRule", "nosuchrule")] if nls else []) + ([("edgeWidthRule", "degree"), ("edgeStyleRule", "nosuchrule")] if case["net"]["e"] else [])
        bad = bad if case["net"]["el"][1] else []
        for k, v in bad:
            try:
                netlib.pymnet.draw(net, layout="random", **{k: {"rule": v}})
                o["refused"].append(False)
            except Exception:
                o["refused"].append(True)
            finally:
                plt.close("all")
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case["net"], case["props"]]) if case["net"]["e"] else None
