"""C40  web pages: webplot (D3) and the three.js backend of draw"""
import json
import os
import random
import subprocess

import checks.c38 as c38
from fn import rand_cfg, rand_net, decorate, failed, cat, ordi, none  # noqa: F401

PID = "C40"
TRACE = "TraceDraw"
BAD = "BadWeb"
RULE = "distinct (network, kind of page) with at least one edge"
HERE = os.path.dirname(os.path.abspath(__file__))


def models(tier):
    return []


class Fake(object):
    pass


def cases(run):
    rng = random.Random(run.seed * 31 + 40)
    out = []
    n = 160 if run.tier == "quick" else 1200
    while len(out) < n:
        cfg = rand_cfg(rng, kinds=("mx",), asps=(1,), coups=[cat(1), ordi(1), none(0)])
        jn = rand_net(rng, cfg, big=0.05, nnodes=(1, 2, 3, 4, 5), weights=rng.choice([(1, 2, 3), (1, 2, -2, 0)]))
        c = decorate(rng, {"fn": "webplot", "net": jn}, cfg, scaled=True)
        c["nek"], c["cfg"] = "int", cfg
        jn["noedge"] = cfg["noedge"]
        c["lab"] = rng.choice([["i", "i"], ["s", "i"], ["w", "j"], ["q", "i"]] if cfg["coup"][0]["t"] == "ordinal" else
                              [["i", "i"], ["s", "s"], ["q", "s"], ["q", "q"], ["i", "q"], ["q", "q"], ["w", "j"]])
        out.append(c)
    sub = Fake()
    sub.seed, sub.tier = run.seed + 7, run.tier
    more = c38.cases(sub)
    for c in more[:n]:
        c["fn"] = "three"
        out.append(c)
    return out


def scripts(page):
    from html.parser import HTMLParser

    class P(HTMLParser):
        def __init__(self):
            HTMLParser.__init__(self)
            self.on, self.s = False, []

        def handle_starttag(self, tag, attrs):
            if tag == "script":
                self.on = "src" not in dict(attrs)
                if self.on:
                    self.s.append("")

        def handle_endtag(self, tag):
            if tag == "script":
                self.on = False

        def handle_data(self, d):
            if self.on:
                self.s[-1] += d
    p = P()
    p.feed(page)
    p.close()
    return p.s


def show(kind, page):
    r = subprocess.run(["node", os.path.join(HERE, "..", "standins", "web.js")], input=json.dumps({"kind": kind, "scripts": scripts(page)}),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=60)
    o = json.loads(r.stdout)
    if "error" in o:
        raise RuntimeError("the page raises " + o["error"])
    return o


def run(case):
    import shutil
    import tempfile
    import netlib
    import fn
    from labels import num
    ctx = netlib.Ctx.of(case)
    L = ctx.L
    net = fn.make(ctx, case["net"])
    if case["fn"] == "three":
        kw = c38.arguments(L, case)
        random.seed(case["id"])
        page = netlib.pymnet.draw(net, layout="random", layershape=case["shape"], layergap=case["gap"] / 60., layerPadding=case["pad"] / 120.,
                                  backend="threejs",
                                  nodeCoords={L.lab(0, v): (x / 120., y / 120.) for v, x, y in case["ncoords"]},
                                  nodelayerCoords={L.nl(a): (x / 120., y / 120.) for a, x, y in case["nlcoords"]}, **kw)
        d = show("three", page)
        pt = lambda p: [c38.rat(x / 100.) for x in p]
        o = {"nodes": [{"p": pt(g["p"])} for g in d["nodes"]], "lines": [{"p": pt(g["p"]), "q": pt(g["q"])} for g in d["lines"]]}
    else:
        plot = netlib.pymnet.visuals.webplots.webplot
        t = tempfile.mkdtemp()
        try:
            pages = [plot(net)]
            plot(net, os.path.join(t, "a.html"))
            with open(os.path.join(t, "a.html")) as f:
                pages.append(f.read())
            plot(net, open(os.path.join(t, "b.html"), "w"))
            with open(os.path.join(t, "b.html")) as f:
                pages.append(f.read())
        finally:
            shutil.rmtree(t)
        o = {"pages": []}
        atom = {k: {str(L.lab(k, a)): a for a in case["net"]["el"][k]} for k in (0, 1)}
        if case["id"] % 4:
            pages = pages[1:2]
        for page in pages:
            lays = []
            for g in sorted(show("d3", page)["layers"], key=lambda g: g["top"]):
                at = {}
                for nd in g["nodes"]:
                    at[str(nd["at"])] = [atom[0].get(str(s), -9) for s in nd["title"]]
                lays.append({"label": [atom[1].get(str(s), -9) for s in g["label"]], "nodes": [at[str(nd["at"])] for nd in g["nodes"]],
                             "lines": [[at.get(str(e["p"]), [-9]), at.get(str(e["q"]), [-9]), num(round((e["width"] or 0) ** 2 / 4. / ctx.scale, 6))] for e in g["lines"]]})
            o["pages"].append({"layers": lays, "tops": len(set(g["top"] for g in show("d3", page)["layers"])) if case["id"] % 4 == 0 else len(lays)})
    o["after"] = netlib.proj_net(ctx, net)
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case["fn"], case["net"]]) if case["net"]["e"] else None
