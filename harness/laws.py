"""Model checking of the specification: which module, configuration and laws for which property."""

NET = """SPECIFICATION Spec
CONSTANTS KIND="%s" ASP=%d DIR=%s FULL=%s NOEDGE%s COUP="%s" NN=%d NL=%d WS={%s} CUT="%s"
VIEW View
INVARIANTS %s
%sCHECK_DEADLOCK FALSE
"""
NX = """SPECIFICATION Spec
CONSTANTS NN=%d WS={%s} NOEDGE%s
VIEW View
INVARIANTS Inv Laws
PROPERTY Steps
CHECK_DEADLOCK FALSE
"""
GRAPHLETS = """SPECIFICATION Spec
CONSTANTS K=%d L=%d MODE="%s"
INVARIANT Laws
CHECK_DEADLOCK FALSE
"""


def b(x):
    return "TRUE" if x else "FALSE"


def num(n):
    return "=%d" % n if n >= 0 else " <- NegOne"


def u(kind, asp, d, full, noedge, coup, nn, nl, ws, cut="any"):
    return (kind, asp, b(d), b(full), num(noedge), coup, nn, nl, ",".join(map(str, ws)), cut)


# small universes
G3 = u("ml", 0, False, True, 0, "none", 3, 1, (1, 2))
G3M = u("ml", 0, False, True, -1, "none", 3, 1, (0, 1))
D2 = u("ml", 0, True, True, 0, "none", 2, 1, (1, 2))
L22 = u("ml", 1, False, True, 0, "none", 2, 2, (1,), "old")
P22 = u("ml", 1, False, False, 0, "none", 2, 2, (1,), "old")
P22A = u("ml", 1, False, False, 0, "none", 2, 2, (1,))
DP21 = u("ml", 1, True, False, 0, "none", 2, 1, (1,))
MC22 = u("mx", 1, False, False, 0, "cat", 2, 2, (1,))
MC32 = u("mx", 1, False, False, 0, "cat", 3, 2, (1,), "old")
MO23 = u("mx", 1, False, False, 0, "ord", 2, 3, (1,))
MN22 = u("mx", 1, True, False, 0, "net", 2, 2, (1,))
MU22 = u("mx", 1, True, True, 0, "none", 2, 2, (1, 2))
MA2 = u("mx", 2, False, False, 0, "cat", 2, 2, (1,), "old")
# larger ones
D3 = u("ml", 0, True, True, 0, "none", 3, 1, (1,))
D3W = u("ml", 0, True, True, 0, "none", 3, 1, (1, 2), "old")
G4 = u("ml", 0, False, True, 0, "none", 4, 1, (1,))
A2 = u("ml", 2, False, False, 0, "none", 2, 1, (1, 2))
L22W = u("ml", 1, False, True, -1, "none", 2, 2, (0, 1), "old")
L32 = u("ml", 1, False, True, 0, "none", 3, 1, (1, 2), "old")
M32 = u("mx", 1, False, True, 0, "cat", 3, 2, (1, 2), "old")
M33 = u("mx", 1, False, True, 0, "cat", 3, 3, (1,), "old")
MO32 = u("mx", 1, False, False, 0, "ord", 3, 2, (1,))

STATE = {  # the state machine: C01-C08
    "C01": ([G3, DP21], [L22W, D3]),
    "C02": ([P22A, MC22], [A2, MO32]),
    "C03": ([P22A, D2], [D3, D3W]),
    "C04": ([G3M, MC22], [D3, MC32]),
    "C05": ([P22A, MC22], [D3, MO32, A2]),
    "C06": ([MC22, MO23, MN22], [MO32, MC32, MA2]),
    "C07": ([MC22, MU22], [M32, MC32]),
    "C08": ([G3M, MC22], [P22A, MC32]),
}
LAWS = {   # functions of networks
    "C09": ("LawC09", [L22, MC22], [D3, MC32, L22W]),
    "C10": ("LawC10", [L22, MC32], [P22, M32, A2, L32]),
    "C11": ("LawC11", [L22, MC22], [P22A, M32, MC32, A2]),
    "C12": ("LawC12", [L22, MC22], [D3, MC32, A2]),
    "C13": ("LawC13", [G3, MC22], [M32, L22W]),
    "C14": ("LawC14", [G3, MC22], [P22, MC32]),
    "C15": ("LawC15", [L22, MC32], [D3, M32, A2]),
    "C16": ("LawC16", [MC32], [M32, M33]),
    "C18": ("LawC18", [L22, MC32], [D3, G4, A2]),
    "C19": ("LawC19", [MC32], [M33, M32]),
    "C20": ("LawC20", [G3, MC22], [D3, D3W, MC32]),
    "C21": ("LawC21", [G3, MC22], [D3, MC32]),
    "C25": ("LawC21", [D2, MC22], [D3, MC32]),
    "C26": ("LawC26", [MC22], [L22, MC32]),
    "C27": ("LawC26", [L22], [MC32]),
    "C28": ("LawC26", [MC22], [L22, MC32]),
    "C29": ("LawC29", [G3], [G4]),
    "C30": ("LawC30", [MC32], [M33]),
    "C31": ("LawC31", [MC32], [M33]),
}
MORE = {   # files, models, figures, layouts
    "C22": ("LawC22", [G3, MC22], [G4, M33]),
    "C23": ("LawC23", [G3, MC22], [G4, M33]),
    "C24": ("LawC24", [MC32], [M33, M32]),
    "C32": ("LawC32", [G3, MC32], [G4, M32, M33]),
    "C33": ("LawC33", [MC32, MU22], [MN22, M32, M33]),
    "C38": ("LawC38", [MC22], [L22, DP21, MC32]),
    "C39": ("LawC39", [L22, MC32], [DP21, M32, P22A]),
    "C40": ("LawC38", [MU22], [P22, L32]),
}
FORMS = {
    "C35": ([(3, 2, "all"), (3, 2, "node")], [(3, 3, "path"), (4, 1, "all"), (3, 3, "all"), (4, 2, "node")]),
    "C36": ([(3, 2, "all")], [(4, 1, "all"), (3, 3, "node")]),
    "C37": ([(3, 1, "all"), (3, 2, "node")], [(4, 1, "node"), (3, 3, "all")]),
}


def models(pid, tier):
    thorough = tier == "thorough"

    def pick(q, t):
        return q + t if thorough else q
    out = []
    if pid in STATE:
        for c in pick(*STATE[pid]):
            out.append(("MCNet%s" % (c,), dict(module="MCNet", cfgtext=NET % (c + ("Inv Laws", "PROPERTY Steps\n")))))
    if pid in MORE:
        law, q, t = MORE[pid]
        for c in pick(q, t):
            out.append(("MCMore:%s%s" % (law, c), dict(module="MCMore", cfgtext=NET % (c + (law, "")))))
    if pid in LAWS:
        law, q, t = LAWS[pid]
        for c in pick(q, t):
            out.append(("MCLaws:%s%s" % (law, c), dict(module="MCLaws", cfgtext=NET % (c + (law, "")))))
    if pid == "C34":
        for c in pick([(3, "1,2", 0)], [(3, "0,1", -1), (4, "1", 0)]):
            out.append(("MCNx%s" % (c,), dict(module="MCNx", cfgtext=NX % (c[0], c[1], num(c[2])))))
    if pid in FORMS:
        for c in pick(*FORMS[pid]):
            out.append(("MCGraphlets%s" % (c,), dict(module="MCGraphlets", cfgtext=GRAPHLETS % c)))
    return out
