"""Inputs and recording for checks of calls with a specified result."""
import os
import random

from hist import (SCALES, ml_params, mx_params, pick_labels, pick_noedge, ml_cfg, mx_cfg, cat, ordi, none, netc)  # noqa: F401


MIX = float(os.environ.get("MIX", "0.1"))    # share of cases with names of different types
MARKER = -777001


def prod(els):
    out = [[]]
    for e in els:
        out = [x + [y] for x in out for y in e]
    return out


def more_aspects(rng, asp):
    return 3 if asp == 2 and rng.random() < 0.25 else asp


def rand_cfg(rng, kinds=("ml", "mx"), asps=(0, 1, 2), dirs=(False, True), fulls=(True, False), noedges=(0, 0, 0, -1, 100),
             coups=None):
    kind = rng.choice(kinds)
    d = rng.choice(dirs)
    full = rng.choice(fulls)
    if kind == "ml":
        asp = more_aspects(rng, rng.choice(asps))
        return ml_cfg(asp, d, full or asp == 0, rng.choice(noedges))
    asp = more_aspects(rng, rng.choice([a for a in asps if a > 0]))
    cs = []
    for _ in range(asp):
        cs.append(rng.choice(coups or [cat(1), cat(2), cat(1, 1), ordi(1), ordi(2), none(0), none(1),
                                       netc([[0, 1, 2], [1, 2, 1]], d)]))
    return mx_cfg(cs, d, full, rng.choice(noedges))


def rand_net(rng, cfg, nnodes=(0, 1, 2, 3, 4, 5), nlayers=(1, 2, 3), weights=(1, 2, 3, -2, 0), density=None,
             selfloops=True, inter=True, node_pool=6, layer_pool=4, memb=None, big=0):
    """static description of a network with configuration cfg"""
    asp = cfg["asp"]
    jn = dict(cfg)
    large = big and asp < 3 and rng.random() < big
    if large:       # a few larger, sparse networks
        nnodes, node_pool = ((10, 12, 14), 14) if asp == 0 else ((9, 10, 12), 12) if asp == 1 else ((5, 6), 6)
        nlayers, layer_pool = ((2, 3, 4, 6), 6) if asp == 1 else ((2, 3), 3)
    if asp >= 3:
        nnodes, nlayers = [min(x, 2) for x in nnodes], [min(x, 2) for x in nlayers]
    n = rng.choice(nnodes)
    els = [sorted(rng.sample(range(node_pool), min(n, node_pool)))]
    for _ in range(asp):
        els.append(sorted(rng.sample(range(layer_pool), rng.choice(nlayers))))
    if rng.random() < 0.7:      # usually contiguous atoms
        els = [list(range(len(e))) for e in els]
    nls = prod(els)
    if cfg["full"] or asp == 0:
        jn["nl"] = []
        pres = nls
    else:
        q = memb if memb is not None else rng.choice([0.3, 0.6, 0.9, 1.0])
        pres = [a for a in nls if rng.random() < q]
        jn["nl"] = pres
    if density is None:
        density = rng.choice([0.0, 0.15, 0.3, 0.5, 0.8, 1.0])
    if large:
        size = len(pres) ** 2 / (1 if cfg["dir"] else 2) / (len(prod(els[1:])) if cfg["kind"] == "mx" else 1.5)
        density = min(0.8, rng.choice([20, 35]) / max(1.0, size))
    ws = [w for w in weights if w != cfg["noedge"]]
    # sometimes: two groups of nodes, few edges between them, different weights inside
    grp = {v: rng.randrange(2) for v in els[0]} if rng.random() < 0.25 else None
    wg = [rng.sample(ws, max(1, len(ws) // 2)) for _ in range(2)]
    cross = rng.choice([0, 0, 0.2])
    e = []
    for i, a in enumerate(pres):
        for j, b in enumerate(pres):
            if not cfg["dir"] and j < i:
                continue
            if a == b and not (selfloops and cfg["kind"] == "ml" and rng.random() < 0.3):
                continue
            if cfg["kind"] == "mx" and a[1:] != b[1:]:
                continue
            p = density
            if a[1:] != b[1:]:
                if not inter:
                    continue
                p = density * 0.5
            same = grp is None or grp[a[0]] == grp[b[0]]
            if not same:
                p *= cross
            if rng.random() < p:
                if not cfg["dir"] and rng.random() < 0.5:
                    a1, b1 = b, a
                else:
                    a1, b1 = a, b
                e.append([a1, b1, rng.choice(wg[grp[a[0]]] if grp and same else ws)])
    rng.shuffle(e)
    jn["el"] = [rng.sample(x, len(x)) for x in els]
    jn["e"] = e
    jn["coup"] = cfg["coup"]
    return jn


def decorate(rng, case, cfg=None, mixed=MIX, scaled=False):
    cfg = cfg or case["cfg"]
    case["cfg"] = cfg
    case["lab"] = pick_labels(rng, cfg)
    if mixed and rng.random() < mixed:      # names of different types
        case["lab"] = ["x"] + [case["lab"][k + 1] if cfg["coup"] and cfg["coup"][k]["t"] == "ordinal" else "x" for k in range(cfg["asp"])]
    case["nek"] = pick_noedge(rng, cfg)
    if case["nek"] in ("none", "inf"):    # a marker no weight and no sum of weights equals
        case["cfg"] = cfg = dict(cfg, noedge=MARKER)
        for k in case:
            if k == "net" and isinstance(case[k], dict):
                case[k]["noedge"] = MARKER
    case["wfloat"] = rng.random() < 0.2
    case["scale"] = rng.choice(SCALES) if scaled else 1
    return case


def failed(case, msg):
    r = {k: v for k, v in case.items() if k not in ("obs",)}
    r.update(ok=False, exc=msg, obs={})
    return r


def ok(case, obs):
    r = dict(case)
    r.update(ok=True, exc="", obs=obs)
    return r


def make(ctx, x):
    """real network of a history or a static description"""
    import netlib
    if "ops" in x:
        net = netlib.new(ctx)
        for op in x["ops"]:
            netlib.apply_op(ctx, net, op)
        return net
    return netlib.build(ctx, x)


class _Slow(BaseException):
    pass


def retry(f, seeds, secs=2.0):
    """f() with the random module seeded; another seed is tried when it does not
    finish in time (the swapping loops of some models need not terminate)"""
    import signal
    old = signal.getsignal(signal.SIGALRM)
    rest = signal.getitimer(signal.ITIMER_REAL)[0]

    def slow(*a):
        raise _Slow()
    signal.signal(signal.SIGALRM, slow)
    try:
        for s in seeds:
            random.seed(s)
            signal.setitimer(signal.ITIMER_REAL, secs)
            try:
                return f()
            except _Slow:
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        raise RuntimeError("does not terminate")
    finally:
        signal.signal(signal.SIGALRM, old)
        signal.setitimer(signal.ITIMER_REAL, max(1.0, rest))


def ident_ctx(kind, asp, coup=(), full=True, dirn=False, lab=None, noedge=0, nek="int"):
    """context for networks whose labels are integers (or of the given kinds)"""
    import netlib
    cfg = {"kind": kind, "asp": asp, "dir": dirn, "full": full, "noedge": noedge, "coup": list(coup)}
    return netlib.Ctx(cfg, lab or ["i"] * (asp + 1), nek)


def counted(draw, pairs_of, n, seed):
    """outcomes of n draws: list of [list of pairs, count]"""
    random.seed(seed)
    cnt = {}
    for _ in range(n):
        k = tuple(sorted(tuple(sorted(p)) for p in pairs_of(draw())))
        cnt[k] = cnt.get(k, 0) + 1
    return [[[list(p) for p in k], v] for k, v in sorted(cnt.items())]
