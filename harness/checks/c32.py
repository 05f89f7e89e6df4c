"""C32  reading UCINET DL files"""
import random

from fn import failed, cat, ordi, none  # noqa: F401

PID = "C32"
TRACE = "TraceFiles"
BAD = "BadUcinet"
RULE = "distinct documents with at least one edge, and malformed documents"


def models(tier):
    return []


def matrix(rng, n, dens, sym):
    m = [[rng.choice([1, 1, 1, 2, 3, -2]) if rng.random() < dens else 0 for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if sym:
                m[i][j] = m[j][i]
            elif m[i][j] and m[j][i]:        # one weight per edge: only one direction or the same weight
                m[i][j] = rng.choice([0, m[j][i]])
    return m


def case_of(s, rng):
    return rng.choice([s, s.upper(), s.capitalize()])


def labels_text(rng, ls):
    out, line = [], []
    for i, x in enumerate(ls):
        line.append(x)
        if rng.random() < 0.4 or i == len(ls) - 1:
            out.append(rng.choice([",", ", "]).join(line))
            line = []
    return out


def render(rng, d, kind, bad=None):
    """text of the document d; kind: none, labels, rowcol, embedded"""
    names = "abcdefghijklmnopqrstuvwxyz"
    n, nm = len(d["cl"]), len(d["m"])
    if bad == "embeddedlabels":
        kind = "embedded"
    if bad == "redundant":
        kind = "rowcol"
    if bad == "empty":
        return []
    size = rng.choice(["N = %d", "n=%d", "N=%d", "n =%d "]) % n
    if nm > 1 or rng.random() < 0.2:
        size += rng.choice([" NM = %d", " nm=%d", "\tNm =%d"]) % nm
    if bad == "size":
        size = rng.choice(["", "%d" % n, "N = x", "M = %d" % n, "N = %d NM = 1 K = 1" % n, "N = %d MM = 1" % n, "N = %d NM = -1" % n,
                           "NM = 1 N = %d" % n, "N = %d, x NM = 1" % n])
    out = ["DL " + size] if rng.random() < 0.6 else [rng.choice(["dl", "DL", "DL "]), size]
    if bad == "dl":
        out[0] = rng.choice([size, "D L " + size, "format = fullmatrix"])
    fm = []
    if bad == "format":
        fm = [["format = " + rng.choice(["edgelist1", "nodelist1", "lowerhalf", "upperhalf", "edgearray1"])]]
    elif rng.random() < 0.6:
        fm = [[rng.choice(["format = fullmatrix", "FORMAT=FULLMATRIX", "format = fullmatrix diagonal present", "Format=fullmatrix "])]]
    if kind == "labels":
        fm.append([rng.choice(["labels:", "LABELS:", "Labels: "])] + labels_text(rng, [names[a] for a in d["cl"]]))
    if kind in ("labrow", "labcol"):
        fm.append([rng.choice(["labels:", "LABELS:"])] + labels_text(rng, [names[a] for a in d["cl" if kind == "labrow" else "rl"]]))
    if kind in ("rows", "labrow"):
        fm.append([rng.choice(["row labels:", "ROW LABELS:"])] + labels_text(rng, [names[a] for a in d["rl"]]))
    if kind in ("cols", "labcol"):
        fm.append([rng.choice(["column labels:", "COLUMN LABELS:"])] + labels_text(rng, [names[a] for a in d["cl"]]))
    if kind == "rowcol":
        fm.append([rng.choice(["row labels:", "ROW LABELS:"])] + labels_text(rng, [names[a] for a in d["rl"]]))
        fm.append([rng.choice(["column labels:", "Column Labels:"])] + labels_text(rng, [names[a] for a in d["cl"]]))
    if kind == "embedded":
        fm.append([rng.choice(["labels embedded", "LABELS EMBEDDED", "Labels embedded:"])])
    if nm > 1 and d["lk"]:
        fm.append(["level labels:"] + labels_text(rng, [names[a] for a in d["ll"]]))
    if bad == "embeddedlabels":
        fm.append([rng.choice(["labels:", "row labels:", "column labels:"])] + labels_text(rng, [names[a] for a in d["cl"]]))
    if bad == "redundant":
        fm.append(["labels:"] + labels_text(rng, [names[a] for a in d["cl"]]))
    if bad == "command":
        fm.append([rng.choice(["matrix labels:", "n = 3", "format", "format fullmatrix", "format = full = matrix", "1 0 1", "#"])])
    rng.shuffle(fm)
    if bad == "labels":      # fewer or more names than columns
        fm = [["labels:", ",".join(names[a] for a in d["cl"])]]
        fm[0][1] = fm[0][1] + ",z" if n == 1 or rng.random() < 0.5 else ",".join(fm[0][1].split(",")[:-1])
    if bad == "labelsend":
        return out + ["labels:"] + labels_text(rng, [names[a] for a in d["cl"]])[:-1]
    for b in fm:
        out += b
    if bad == "nodata":
        return out
    out.append(rng.choice(["data:", "DATA:", "Data: ", "data"]))
    sep = rng.choice([" ", "  ", "\t"])
    if kind == "embedded":
        out.append(sep.join(case_of(names[a], rng) for a in d["cl"]))
    rows = []
    wrap = rng.random() < 0.3 and bad != "columns"
    wf = rng.random() < 0.3
    for m in d["m"]:
        for i, r in enumerate(m):
            f = [repr(v * d["scale"]) if d["scale"] != 1 else ("%d.0" % v if wf else str(v)) for v in r]
            if kind == "embedded":
                f = [case_of(names[d["rl"][i]], rng)] + f
            rows.append(f)
    if bad == "rows":
        rows = rows[:-1]
    if bad == "columns":
        rows[rng.randrange(len(rows))].append("1")
    for f in rows:
        k = rng.randrange(1, len(f)) if wrap and len(f) > 1 and rng.random() < 0.6 else len(f)
        out.append(sep.join(f[:k]) + rng.choice(["", " "]))
        if k < len(f):
            out.append(rng.choice(["", "  "]) + sep.join(f[k:]))
    out += [""] * rng.choice([0, 0, 1, 2])
    return out


def cases(run):
    rng = random.Random(run.seed * 31 + 32)
    out = []
    while len(out) < (600 if run.tier == "quick" else 8000):
        large = rng.random() < 0.04
        n = rng.randrange(6, 10) if large else rng.choice([1, 2, 3, 3, 4, 5])
        nm = rng.choice([1, 1, 2, 2, 3, 5 if large else 3])
        kind = rng.choice(["none", "labels", "rowcol", "embedded", rng.choice(["rows", "cols", "labrow", "labcol"])])
        ids = rng.sample(range(max(8, n)), n) if kind != "none" else list(range(n))
        d = {"rl": ids, "cl": ids, "lk": int(rng.random() < 0.5), "ll": list(range(nm)), "full": rng.random() < 0.6,
             "coup": rng.choice([cat(1), cat(2), ordi(1), none(0)])}
        if d["coup"]["t"] == "ordinal":
            d["lk"] = 0
        if d["lk"]:
            d["ll"] = rng.sample(range(6), nm)
        if kind in ("labrow", "labcol"):
            d["rl"] = rng.sample(range(max(8, n)), n)
        if kind == "rows":
            d["cl"] = [10 + i for i in range(n)]
        if kind == "cols":
            d["rl"] = [10 + i for i in range(n)]
        if kind == "rowcol" and rng.random() < 0.3:
            d["rl"] = rng.sample(range(max(8, n)), n)
        asym = d["rl"] != d["cl"]
        d["m"] = [matrix(rng, n, rng.choice([0, 0.3, 0.6, 1]), rng.random() < 0.6) for _ in range(nm)]
        if asym:      # a pair can occur twice: unit weights
            d["m"] = [[[(1 if v else 0) for v in r] for r in m] for m in d["m"]]
        bad = rng.choice(["format", "rows", "columns", "nodata", "size", "dl", "embeddedlabels", "redundant", "command", "labels", "labelsend",
                          "empty"]) if rng.random() < 0.2 else None
        d["scale"] = rng.choice([1, 1, 1, 0.125, 1048576])
        c = {"fn": "bad" if bad else "ok", "doc": d, "kind": kind, "text": render(rng, d, kind, bad),
             "bad": bad or "", "how": rng.choice(["lines", "gen", "file"])}
        out.append(c)
    return out


def run(case):
    import os
    import shutil
    import tempfile
    import netlib
    import fn
    from pymnet import netio
    d = case["doc"]
    multi = len(d["m"]) > 1
    cfg = {"kind": "mx" if multi else "ml", "asp": int(multi), "dir": False, "full": d["full"], "noedge": 0, "coup": [d["coup"]]}
    ctx = netlib.Ctx(cfg, [("i" if case["kind"] == "none" else "m" if case["kind"] in ("rows", "cols") else "s")] + (["s" if d["lk"] else "i"] if multi else []), scale=d["scale"])
    kw = {"fullyInterconnected": d["full"]}
    q = netlib.make_couplings(ctx)
    if q:
        kw["couplings"] = q[0]
    if d["full"] and len(case["text"]) % 2:      # the default
        kw.pop("fullyInterconnected")
    if q and d["coup"] == cat(1) and d["scale"] == 1 and len(case["text"]) % 3:
        kw.pop("couplings")

    def read(how):
        if how == "lines":
            return netio.read_ucinet(list(case["text"]), **kw)
        if how == "gen":
            return netio.read_ucinet((x + "\n" for x in case["text"]), **kw)
        t = tempfile.mkdtemp()
        try:
            p = os.path.join(t, "n.dl")
            with open(p, "w") as f:
                f.write("\n".join(case["text"]) + "\n")
            return netio.read_ucinet(p, **kw)
        finally:
            shutil.rmtree(t)
    if case["fn"] == "bad":
        try:
            read(case["how"])
        except Exception:
            return fn.ok(case, {"raised": 1})
        return fn.ok(case, {"raised": 0})
    net = read(case["how"])
    o = {"res": netlib.proj_net(ctx, net)}
    o["same"] = int(sorted(map(repr, read("lines").edges)) == sorted(map(repr, net.edges)))
    return fn.ok(case, o)


def nontrivial(case, res):
    return str([case["doc"], case["kind"], case["bad"]]) if case["bad"] or any(any(any(r) for r in m) for m in case["doc"]["m"]) else None
