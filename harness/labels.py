"""Mapping between the specification's atoms (small integers) and Python labels.

The specification knows nodes and elementary layers as non-negative integers.
The real library is exercised with labels of several kinds; every mapping is
injective and order preserving, so sorting-dependent results can be compared.
"""

BAD = -9            # "label the harness never introduced"
BADNUM = -999983    # "number that is not an integer"

LETTERS = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
           "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"]

QUOTED = ["it's", 'a "b" c', "back\\slash", "</script>", "line\nbreak", "\u2603\u00e9", "<!-- x", "@netjson", "a;b&amp;c", "'\\", "</SCRIPT >", " tab\t"]


def _mk(kind):
    if kind == "i":        # 0,1,2,... (contains the falsy label 0)
        return lambda a: a
    if kind == "j":        # offset ints; their order is not that of their string forms
        return lambda a: 8 + a
    if kind == "x":        # labels of different types (only where nothing is sorted)
        return lambda a: (a, LETTERS[a], 0.5 + a, frozenset([a]))[a % 4]
    if kind == "n":        # negative and non-negative ints
        return lambda a: a - 1
    if kind == "h":        # numbers that collide in sets and dictionaries: their order is the order of insertion
        return lambda a: a << 16
    if kind == "s":
        return lambda a: LETTERS[a]
    if kind == "e":        # strings, the first one empty (falsy)
        return lambda a: "" if a == 0 else LETTERS[a]
    if kind == "q":        # strings that need quoting in documents
        return lambda a: QUOTED[a % len(QUOTED)] + ("" if a < len(QUOTED) else str(a))
    if kind == "w":        # longer strings sharing a prefix
        return lambda a: "node%02d" % a
    if kind == "m":        # strings, and from 10 on whole numbers
        return lambda a: LETTERS[a] if a < 10 else a - 10
    if kind == "t":        # tuples (only where the interface can take them)
        return lambda a: ("t", a)
    raise ValueError(kind)


class Labels(object):
    """One scheme per position of a node-layer tuple."""

    def __init__(self, kinds, size=26):
        self.kinds = list(kinds)
        self.f = [_mk(k) for k in kinds]
        self.inv = []
        for f in self.f:
            d = {}
            for a in range(size):
                d[f(a)] = a
            self.inv.append(d)

    def lab(self, k, atom):
        return self.f[k](atom)

    def atom(self, k, label):
        try:
            return self.inv[k].get(label, BAD)
        except TypeError:
            return BAD

    def nl(self, atoms):
        return tuple(self.f[k](a) for k, a in enumerate(atoms))

    def unl(self, labels):
        """labels: a tuple node-layer, or a bare node label of a monoplex network"""
        if not isinstance(labels, tuple) or (len(self.f) == 1 and self.kinds[0] == "t"):
            labels = (labels,)
        if len(labels) != len(self.f):
            return [BAD]
        return [self.atom(k, x) for k, x in enumerate(labels)]

    def layer(self, atoms):
        """layer argument as the public interface takes it"""
        t = tuple(self.f[k + 1](a) for k, a in enumerate(atoms))
        return t[0] if len(t) == 1 else t

    def unlayer(self, layer):
        if len(self.f) == 2:
            layer = (layer,)
        if not isinstance(layer, tuple) or len(layer) != len(self.f) - 1:
            return [BAD]
        return [self.atom(k + 1, x) for k, x in enumerate(layer)]


class Values(object):
    """Edge weights and the no-edge marker."""

    def __init__(self, noedge_kind, noedge_int, scale=1):
        self.scale = scale      # weight w of the specification is w * scale in the network
        self.noedge_int = noedge_int
        self.noedge_py = {"int": noedge_int, "none": None, "inf": float("inf"),
                          "float": float(noedge_int), "str": "nope"}[noedge_kind]
        self.kind = noedge_kind

    def py(self, w, as_float=False):
        if w == self.noedge_int:
            return self.noedge_py
        return (float(w) if as_float else w) * self.scale

    def enc(self, v):
        if isinstance(v, bool):
            return BADNUM
        if v is None or isinstance(v, str):
            return self.noedge_int if v == self.noedge_py else BADNUM
        try:
            if v == self.noedge_py:
                return self.noedge_int
            return self.num(v)
        except Exception:
            return BADNUM

    def num(self, v):
        """a weight or a sum of weights"""
        if self.scale == 1:
            return num(v)
        try:
            return num(v / float(self.scale))
        except Exception:
            return BADNUM


def num(v):
    """an integral Python/numpy number as an int that TLC can hold"""
    try:
        if isinstance(v, bool):
            return BADNUM
        i = int(v)
        if i == v and abs(i) < 2 ** 30:
            return i
    except Exception:
        pass
    return BADNUM


def rat(v, maxden=20000):
    """a float as the rational [num, den] it stands for"""
    from fractions import Fraction
    try:
        v = float(v)
        f = Fraction(v).limit_denominator(maxden)
        if abs(float(f) - v) <= 1e-9 * max(1.0, abs(v)) and abs(f.numerator) < 2 ** 30:
            return [f.numerator, f.denominator]
    except Exception:
        pass
    return [BADNUM, 1]
