"""numbers of the clustering checks: millionths, and markers for undefined values"""
UNDEF = -777000000
NONE = -888000000
MARK = "undefined"


def fx(v):
    if v is None:
        return NONE
    if isinstance(v, str) and v == MARK:
        return UNDEF
    v = float(v)
    if v != v or abs(v) > 2000:
        return -999000000
    return int(round(v * 1000000))


def ints(t):
    out = []
    for v in t:
        if v != int(v):
            raise ValueError("not a whole number: %r" % (v,))
        out.append(int(v))
    return out
