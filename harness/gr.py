"""Graphlets: parameters, projections and random networks."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "standins"))
ASSUMPTIONS = ["PyBliss is not installed here: the library's bliss backend runs against harness/standins/PyBliss.py, "
               "which implements the interface it uses exactly"]

# (n, number of layers given, layers of a graphlet, mode, coupling)
SMALL = [(2, 1, 1, "all", "none"), (3, 1, 1, "all", "none"), (4, 1, 1, "all", "none"), (4, 1, 1, "node", "none"), (3, 2, 2, "all", "none"), (3, 2, 2, "node", "none"),
         (3, 2, 1, "node", "none"), (3, 2, 1, "all", "none"), (3, 3, 2, "node", "none"), (3, 3, 2, "all", "none"), (3, 3, 3, "all", "none"),
         (3, 3, 3, "node", "none"), (3, 2, 2, "all", "categorical"), (3, 3, 3, "all", "ordinal"), (3, 3, 3, "node", "ordinal"), (2, 3, 3, "all", "ordinal"), (5, 1, 1, "all", "none")]
LARGE = [(4, 2, 2, "all", "none"), (4, 2, 2, "node", "none"), (4, 2, 1, "node", "none")]


class Kit(object):
    def __init__(self, case):
        import labels
        from pymnet import graphlets as G
        import pymnet
        self.G, self.pymnet = G, pymnet
        self.L = labels.Labels(["i", case["lab"]])
        self.kw = {"allowed_aspects": [0]} if case["mode"] == "node" else {} if case["allform"] == 0 else {"allowed_aspects": [0, 1]}
        self.coup = {"none": None, "categorical": "categorical", "ordinal": "ordinal"}[case["coup"]]
        self.layers = [self.L.lab(1, a) for a in case["lays"]]
        kw = dict(self.kw)
        if self.coup is not None:
            kw["couplings"] = self.coup
        if case["nl"] != len(case["lays"]) or case["allform"] == 0:
            kw["n_l"] = case["nl"]
        self.nets, self.invs = G.graphlets(case["n"], self.layers, **kw)
        self.auts = G.automorphism_orbits(self.nets, **self.kw)

    def edges(self, net):
        out = []
        for e in net.edges:
            if e[0] != e[1] or e[2] == e[3]:
                a, b = sorted(e[:2])
                w = e[4] if e[2] == e[3] and a != b else -9
                out.append([a, b, self.L.atom(1, e[2])] if w == 1 else [a, b, -9])
        return sorted(out)

    def reps(self):
        from pymnet import MultiplexNetwork
        out = []
        for k in self.nets:
            for i, net in enumerate(self.nets[k]):
                good = type(net) is MultiplexNetwork and net.fullyInterconnected and net.aspects == 1 and not net.directed
                nodes = list(net)
                coupled = sorted((self.L.atom(1, l), self.L.atom(1, m)) for l in net.slices[1] for m in net.slices[1]
                                 if net[nodes[0], nodes[0], l, m] != net.noEdge)
                ls = sorted(self.L.atom(1, l) for l in net.slices[1])
                exp = {None: [], "categorical": [(a, b) for a in ls for b in ls if a != b], "ordinal": [(a, b) for a in ls for b in ls if abs(a - b) == 1]}[self.coup]
                out.append([k, i, sorted(nodes), ls, self.edges(net), int(bool(good) and coupled == exp)])
        return out

    def net(self, jn, nodelab):
        """random network; nodelab: mapping of its nodes"""
        net = self.pymnet.MultiplexNetwork(couplings=self.coup, fullyInterconnected=True)
        for l in jn["layers"]:
            net.add_layer(self.L.lab(1, l))
        for a in jn["nodes"]:
            net.add_node(nodelab(a))
        for a, b, l in jn["es"]:
            net[nodelab(a), nodelab(b), self.L.lab(1, l)] = 1
        return net


def params(rng, p):
    n, nlay, nl, mode, coup = p
    lab = rng.choice(["i", "j", "n"]) if coup == "ordinal" else rng.choice(["i", "s", "w", "j", "n", "h"])
    lays = list(range(nlay)) if coup == "ordinal" or rng.random() < 0.6 else rng.sample(range(5), nlay)
    if coup != "ordinal" and rng.random() < 0.5:
        rng.shuffle(lays)
    return {"n": n, "lays": lays, "nl": nl, "mode": mode, "coup": coup, "lab": lab, "allform": rng.randrange(2)}


def spec_mode(case):
    return "path" if case["coup"] == "ordinal" and case["mode"] == "all" else case["mode"]


def out(case):
    c = dict(case)
    c["mode"] = spec_mode(case)
    return c


def rand_struct(rng, layers, nodes):
    p = rng.choice([0.15, 0.3, 0.5, 0.8])
    es = [[a, b, l] for i, a in enumerate(nodes) for b in nodes[i + 1:] for l in layers if rng.random() < p]
    return {"nodes": nodes, "layers": layers, "es": es}
