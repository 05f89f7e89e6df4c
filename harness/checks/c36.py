"""C36  graphlet orbit counts and graphlet correlation distances"""
import random

import gr
from gr import ASSUMPTIONS  # noqa: F401
from fn import failed  # noqa: F401

PID = "C36"
TRACE = "TraceGraphlets"
BAD = "Bad0"
RULE = "distinct networks with at least one edge, and tables of orbit counts"
CASE_LIMIT = 120


def models(tier):
    return []


def cases(run):
    rng = random.Random(run.seed * 31 + 36)
    out = []
    quick = run.tier == "quick"
    for p in (gr.SMALL * (2 if quick else 8)) + gr.LARGE[:2] * (1 if quick else 3):
        c = gr.params(rng, p)
        if c["mode"] == "node" and c["nl"] != len(c["lays"]):
            c["nl"] = len(c["lays"]) if len(c["lays"]) < 3 else 2
        c["fn"] = "counts"
        c["nets"] = []
        for _ in range(4):
            free = c["mode"] == "all" and c["coup"] != "ordinal" and rng.random() < 0.4
            lays = rng.sample(range(6) if free else c["lays"], c["nl"])
            if c["mode"] == "node" and c["nl"] != len(c["lays"]):
                lays = rng.sample(c["lays"], c["nl"])
            if c["coup"] == "ordinal":
                lays = list(c["lays"])
            nn = rng.choice([0, 1, 2, 3, 4, 5, 6, 7] if c["n"] < 5 else [4, 5, 6])
            jn = gr.rand_struct(rng, sorted(lays), sorted(rng.sample(range(9), nn)))
            jn["names"] = rng.choice(["int", "str", "mix", "shift"])
            c["nets"].append(jn)
        out.append(c)
    for _ in range(6 if quick else 60):
        m = rng.choice([2, 3, 4])
        tables = []
        while len(tables) < 4:
            t = [[rng.choice([0, 0, 1, 2, 3, 5]) for _ in range(3 if m == 2 else m)] for _ in range(rng.randrange(2, 7))]
            if all(len(set([1] + [r[j] for r in t])) > 1 for j in range(len(t[0]))) and len(t[0]) > 2:
                tables.append(t)
        mats = []
        for _ in range(rng.randrange(1, 4)):
            mats.append([[rng.randrange(-3, 4) for _ in range(m)] for _ in range(m)])
        out.append({"fn": "gcm", "tables": tables, "mats": mats, "n": 0, "lays": [], "nl": 0, "mode": "all", "coup": "none", "lab": "i", "allform": 0, "nets": []})
    return out


class Table(object):
    """as much of a pandas data frame as the library may need"""
    def __init__(self, rows, index=None):
        self.rows = [list(r) for r in rows]
        self.index = list(index) if index is not None else list(range(len(self.rows)))
        self.columns = list(range(len(self.rows[0])))
        self.loc = self

    shape = property(lambda s: (len(s.rows), len(s.rows[0])))
    values = property(lambda s: s.__array__())

    def __setitem__(self, k, row):
        assert len(row) == len(self.columns)
        if k in self.index:
            self.rows[self.index.index(k)] = list(row)
        else:
            self.index.append(k)
            self.rows.append(list(row))

    def __getitem__(self, k):
        import numpy
        return numpy.array(self.rows[self.index.index(k)])

    def copy(self, deep=True):
        return Table(self.rows, self.index)

    def reset_index(self, drop=False):
        assert drop
        return Table(self.rows)

    def to_numpy(self):
        return self.__array__()

    def __array__(self, dtype=None, copy=None):
        import numpy
        return numpy.array(self.rows, dtype=dtype)

    def __len__(self):
        return len(self.rows)


INDEX = [lambda n: list(range(n)), lambda n: list(range(1, n + 1)), lambda n: ["n%d" % i for i in range(n)], lambda n: list(range(n, 0, -1))]


NAMES = {"int": lambda a: a, "str": lambda a: "n%d" % a, "mix": lambda a: a if a < 3 else 100 + a, "shift": lambda a: (a + 1) % 9}


def gcm(case):
    import fn
    import numpy
    from pymnet import graphlets as G
    o = {"gcms": [], "same": 1, "single": []}
    for i, t in enumerate(case["tables"]):
        index = INDEX[(i + case["id"]) % len(INDEX)](len(t))     # the nodes are usually the row names
        d = Table(t, index)
        g = G.GCM(d)
        if d.rows != [list(r) for r in t] or d.index != index:
            o["same"] = 0
        o["gcms"].append([[int(round(float(x) * 1000)) for x in r] for r in g])
    mats = [numpy.array(m) * 1.0 for m in case["mats"]]
    fx = lambda v: int(round(v * 1000))  # noqa: E731
    o["gcd"] = [[fx(v) for v in r] for r in G.GCD_matrix(mats)]
    for i in range(len(mats)):
        o["single"].append([i + 1, 1, fx(G.GCD(mats[i], mats[0]))])
    try:
        G.GCD(numpy.zeros((2, 2)), numpy.zeros((3, 3)))
        o["mismatch"] = 0
    except Exception:
        o["mismatch"] = 1
    return fn.ok(case, o)


def run(case):
    import fn
    if case["fn"] == "gcm":
        return gcm(case)
    K = gr.Kit(case)
    G = K.G
    nums = G.orbit_numbers(case["n"], K.nets, K.auts)
    olist = G.ordered_orbit_list(nums)
    o = {"reps": K.reps(), "orbits": [list(q) for q in olist], "res": []}
    for jn in case["nets"]:
        f = NAMES[jn["names"]]
        inv = {f(a): a for a in jn["nodes"]}
        net = K.net(jn, f)
        before = K.net(jn, f)
        one = {}
        for v in list(net):
            G.orbit_counts(case["n"], v, net, K.nets, one, K.auts, K.invs, olist, **K.kw)
        al = G.orbit_counts_all(net, case["n"], K.nets, K.invs, K.auts, olist, **K.kw)

        def table(d):
            rows = []
            for v in sorted(set(k[0] for k in d), key=str):
                rows.append([inv[v], [int(d[v, q]) if (v, q) in d else -9 for q in olist] + [-9] * sum(1 for k in d if k[0] == v and k[1] not in nums)])
            return rows
        o["res"].append({"one": table(one), "all": table(al), "after": int(net == before)})
    return fn.ok(gr.out(case), o)


def nontrivial(case, res):
    if case["fn"] == "gcm":
        return str(case["tables"])
    return str([case[k] for k in ("n", "lays", "nl", "mode", "coup", "nets")]) if any(j["es"] for j in case["nets"]) else None


def leaf_ok(p):
    return p[1:2] != ["reps"]


def evidence(cases, results):
    return {"networks": sum(len(c["nets"]) for c in cases), "counted_orbits": sum(sum(x for v in r["obs"]["res"] for q in v["one"] for x in q[1])
                                                                               for r in results if r["ok"] and r["fn"] == "counts")}
