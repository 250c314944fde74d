"""C27: invalid arguments are refused before anything is changed, valid ones accepted."""
from .common import *
from .c16 import fresh as constant

EXPL = ("Every public constructor, setter, derive/conversion method and factory is evaluated over symbolic and enumerated arguments inside and outside its documented domain (types, allowed values, ranges, shapes): "
        "outside arguments have to end in an error on every path, inside arguments must not; on refusal, the described attributes of the objects involved and the numeric settings of all modules are compared with their values beforehand.")

NAMES = {"SiteID": QS, "StateID": QS, "AoC": PS, "NumberOperator": PS, "ParticleTerm": PS, "SpinOperator": SS, "SpinInteraction": SS, "Creator": FA, "Annihilator": FA, "CPFactory": FA,
         "HoppingFactory": FA, "PairingFactory": FA, "HubbardFactory": FA, "CoulombFactory": FA, "HeisenbergFactory": FA, "IsingFactory": FA, "TwoSpinTermFactory": FA, "Bond": BO, "IndexTable": IT,
         "Lattice": LA, "KPath": LA, "ShowFirstBZ": LA, "lattice_generator": DB, "special_cluster": DB, "Line2D": L2, "Polygon": PG, "HilbertSpace": HS, "SimpleHilbertSpace": HS, "base_vectors": HS,
         "TotalSpinMatrices": AV, "TotalSpin": TL + ".TotalSpin", "Permutation": TL + ".PandC", "Combination": TL + ".PandC", "RotationGeneral": R3}
PUBLIC = {"SiteID": "(o.coordinate,)", "StateID": "(o.coordinate, o.spin, o.orbit)", "AoC": "(o.otype, o.coordinate, o.spin, o.orbit)", "NumberOperator": "(o.coordinate, o.spin, o.orbit)",
          "ParticleTerm": "(o.coeff, o.classification, len(o.components))", "SpinOperator": "(o.otype, o.coordinate)", "SpinInteraction": "(o.coeff, len(o.components))",
          "Bond": "(o.endpoints, o.directional)", "Lattice": "(o.points, o.vectors, o.name)", "IndexTable": "(list(o.objects()), list(o.indices()))", "Line2D": "(repr(o),)"}

REAL = ["0", "1", "-2", "0.5", "-1.25", "x", "i", "fx", "ix"]          # float, int, numpy float and numpy int
NOTREAL = ["'a'", "None", "1j", "z", "cz", "(1.0,)", "[0.5]", "b'1'", "{}"]
NUMBER = ["0", "2", "-1.5", "1j", "2.0 - 1.0j", "x", "i", "z", "fx", "ix", "cz"]
NOTNUMBER = ["'1.0'", "None", "(1.0,)", "[2]", "{}", "b'1'", "op"]
NATURAL = ["0", "1", "2", "7", "n"]
NOTNATURAL = ["-1", "-3", "m", "0.0", "1.0", "'0'", "(0,)", "1j", "[1]", "b'1'", "x", "z"]


def sites(good):
    """site arguments with a value at one place"""
    out = []
    for v in good:
        out += ["(%s,)" % v, "[%s]" % v, "(%s, 1.0)" % v, "(1.0, %s)" % v, "[0.5, %s]" % v, "(%s, 0, 1)" % v, "(0, %s, 1)" % v, "[0, 1, %s]" % v]
    return out


GOODSITES = sites(REAL) + ["np.array([x, y])", "np.array([0.5])", "np.array([x, y, 2.0])", "(x, i, fx)"]
BADSITES = sites(NOTREAL) + ["()", "[]", "(0, 1, 2, 3)", "(x, y, x, y)", "np.zeros(4)", "np.zeros(0)", "np.array([x, y, x, y])", "np.zeros((2, 2))", "np.array([1j, 0])", "1", "x", "None", "'ab'", "'xyz'", "iter([0.0, 1j])"]
SHORTSITES = ["(x, y)", "np.array([0.5])", "[0, 1, i]"]
SHORTBAD = ["()", "(0, 1, 2, 3)", "(1.0, 'a')", "(1j,)", "(x, None, 0)", "3", "np.zeros((1, 2))"]


def cases():
    """(rule, expression, errors or None for accepted, setup)"""
    out = []

    def good(rule, *srcs, **kw):
        for s in srcs:
            out.append((rule, s, None, kw.get("setup", ())))

    def bad(rule, *srcs, **kw):
        for s in srcs:
            out.append((rule, s, kw.get("errors") or (), kw.get("setup", ())))
    # ---- states
    for s in GOODSITES:
        good("state", "SiteID(%s)" % s)
        good("state", "StateID(%s, 1, 2)" % s)
    for s in BADSITES:
        bad("state", "SiteID(%s)" % s, "StateID(%s)" % s, "AoC(1, %s)" % s, "NumberOperator(%s)" % s)
        bad("spin operator", "SpinOperator('z', %s)" % s)
    for s in SHORTSITES:
        for k in NATURAL:
            for name, pre in (("StateID", ""), ("AoC", "0, "), ("AoC", "1, "), ("NumberOperator", "")):
                good("state", "%s(%s%s, %s)" % (name, pre, s, k), "%s(%s%s, orbit=%s)" % (name, pre, s, k), "%s(%s%s, spin=%s, orbit=n)" % (name, pre, s, k))
        for k in NOTNATURAL + ["None"]:
            for name, pre in (("StateID", ""), ("AoC", "0, "), ("AoC", "1, "), ("NumberOperator", "")):
                bad("state", "%s(%s%s, %s)" % (name, pre, s, k), "%s(%s%s, orbit=%s)" % (name, pre, s, k), "%s(%s%s, spin=n, orbit=%s)" % (name, pre, s, k), "%s(%s%s, spin=%s, orbit=n)" % (name, pre, s, k))
        for t in ("2", "-1", "None", "'c'", "'p'", "0.5", "()", "(1,)", "k2", "m"):
            bad("state", "AoC(%s, %s)" % (t, s), "AoC(otype=%s, site=%s, spin=1, orbit=1)" % (t, s))
        for t in ("0", "1"):
            good("state", "AoC(%s, %s)" % (t, s))
        for t in ("x", "y", "z", "p", "m"):
            good("spin operator", "SpinOperator('%s', %s)" % (t, s))
        for t in ("'X'", "'a'", "''", "'xy'", "'pm'", "None", "0", "1", "('x',)", "'plus'", "' z'"):
            bad("spin operator", "SpinOperator(%s, %s)" % (t, s), "SpinOperator(otype=%s, site=%s)" % (t, s))
    # ---- derive
    for obj, new, keys in (("AoC(1, (x, 0.5), 1, 2)", "o.derive(%s)", ("site", "spin", "orbit", "otype")), ("AoC(0, (x,), n, 2)", "o.derive(%s)", ("site", "spin", "orbit", "otype")),
                           ("NumberOperator((x, 0.5), 1, 2)", "o.derive(%s)", ("site", "spin", "orbit")), ("SpinOperator('p', (x, 0.5))", "o.derive(%s)", ("site", "otype"))):
        spin = obj.startswith("Spin")
        for key in keys:
            g, b = {"site": (SHORTSITES, SHORTBAD), "spin": (NATURAL, NOTNATURAL), "orbit": (NATURAL, NOTNATURAL),
                    "otype": ((["'x'", "'m'"], ["'a'", "3", "''", "k2"]) if spin else (["0", "1"], ["2", "-1", "'c'", "k2"]))}[key]
            good("derive", *[new % ("%s=%s" % (key, v)) for v in g], setup=(("o", obj),))
            bad("derive", *[new % ("%s=%s" % (key, v)) for v in b], setup=(("o", obj),))
            other = {"site": "otype='z'" if spin else "spin=2", "spin": "orbit=1", "orbit": "site=(0.25,)", "otype": "site=(0.25,)"}[key]
            bad("derive", *[new % ("%s, %s=%s" % (other, key, v)) for v in b], setup=(("o", obj),))
            good("derive", *[new % ("%s, %s=%s" % (other, key, v)) for v in g], setup=(("o", obj),))
    # ---- terms
    ops = (("op", "AoC(1, (x,))"), ("oq", "AoC(0, (0.5,))"), ("sp", "SpinOperator('p', (x,))"), ("sz", "SpinOperator('z', (0.5,))"))
    for k in NUMBER:
        good("term", "ParticleTerm([op, oq], %s)" % k, "ParticleTerm((op, oq), coeff=%s)" % k, "SpinInteraction([sp, sz], %s)" % k, "SpinInteraction((sp,), coeff=%s)" % k, setup=ops)
        good("setter", "setattr(o, 'coeff', %s)" % k, setup=ops + (("o", "ParticleTerm((op, oq), 2.5)"),))
        good("setter", "setattr(o, 'coeff', %s)" % k, setup=ops + (("o", "SpinInteraction((sp, sz), 2.5)"),))
    for k in NOTNUMBER:
        bad("term", "ParticleTerm([op, oq], %s)" % k, "ParticleTerm((op, oq), coeff=%s)" % k, "ParticleTerm((op, oq), coeff=%s, classification='hopping')" % k, "SpinInteraction([sp, sz], %s)" % k,
            "SpinInteraction((sp,), coeff=%s)" % k, setup=ops)
        for v in ("2.5", "z", "x"):
            bad("setter", "setattr(o, 'coeff', %s)" % k, setup=ops + (("o", "ParticleTerm((op, oq), %s)" % v),))
            bad("setter", "setattr(o, 'coeff', %s)" % k, setup=ops + (("o", "SpinInteraction((sp, sz), %s)" % v),))
    for k in ("general", "hopping", "number", "Coulomb"):
        good("term", "ParticleTerm((op, oq), 1.5, classification='%s')" % k, setup=ops)
    for k in ("'General'", "'coulomb'", "''", "None", "0", "'pairing'", "('hopping',)", "'hopping '"):
        bad("term", "ParticleTerm((op, oq), 1.5, classification=%s)" % k, "ParticleTerm((op,), classification=%s)" % k, setup=ops)
    # attributes that are read-only: assignment is refused and changes nothing
    for obj, attrs in (("SiteID((x,))", ("coordinate", "site")), ("StateID((x,), 1, 1)", ("coordinate", "site", "spin", "orbit")), ("AoC(1, (x,), 1, 1)", ("otype", "state", "coordinate", "site", "spin", "orbit")),
                       ("NumberOperator((x,), 1, 1)", ("state", "coordinate", "site", "spin", "orbit")), ("SpinOperator('x', (x,))", ("otype", "coordinate", "site")),
                       ("ParticleTerm((op, oq))", ("components", "classification")), ("SpinInteraction((sp,))", ("components",)), ("Bond((x,), (0.5,))", ("endpoints", "directional"))):
        for a in attrs:
            bad("read-only", "setattr(o, '%s', 1)" % a, setup=ops + (("o", obj),))
    # ---- factories
    for name in ("Creator", "Annihilator"):
        good("factory", *["%s(%s)" % (name, s) for s in SHORTSITES] + ["%s((x,), %s)" % (name, k) for k in NATURAL] + ["%s((x,), orbit=%s)" % (name, k) for k in NATURAL])
        bad("factory", *["%s(%s)" % (name, s) for s in SHORTBAD] + ["%s((x,), %s)" % (name, k) for k in NOTNATURAL] + ["%s((x,), orbit=%s)" % (name, k) for k in NOTNATURAL])
    two = {"HoppingFactory": ("spin0", "spin1", "orbit0", "orbit1"), "PairingFactory": ("spin0", "spin1", "orbit0", "orbit1"), "CoulombFactory": ("spin0", "spin1", "orbit0", "orbit1"),
           "HeisenbergFactory": (), "IsingFactory": (), "TwoSpinTermFactory": ()}
    tail = {"IsingFactory": ", 'x'", "TwoSpinTermFactory": ", 'x', 'z'"}
    for name, keys in two.items():
        t = tail.get(name, "")
        for s in SHORTSITES:
            good("factory", "%s(%s, (0.25,)%s)" % (name, s, t), "%s((0.25,), %s%s)" % (name, s, t))
        for s in SHORTBAD:
            bad("factory", "%s(%s, (0.25,)%s)" % (name, s, t), "%s((0.25,), %s%s)" % (name, s, t))
        for key in keys:
            good("factory", *["%s((x,), (0.5,), %s=%s)" % (name, key, k) for k in NATURAL])
            bad("factory", *["%s((x,), (0.5,), %s=%s)" % (name, key, k) for k in NOTNATURAL])
        good("factory", *["%s((x,), (0.5,)%s, coeff=%s)" % (name, t, k) for k in NUMBER])
        bad("factory", *["%s((x,), (0.5,)%s, coeff=%s)" % (name, t, k) for k in NOTNUMBER if k != "op"])
    for name, keys in (("CPFactory", ("spin", "orbit")), ("HubbardFactory", ("orbit",))):
        good("factory", *["%s(%s)" % (name, s) for s in SHORTSITES] + ["%s((x,), coeff=%s)" % (name, k) for k in NUMBER])
        bad("factory", *["%s(%s)" % (name, s) for s in SHORTBAD] + ["%s((x,), coeff=%s)" % (name, k) for k in NOTNUMBER if k != "op"])
        for key in keys:
            good("factory", *["%s((x,), %s=%s)" % (name, key, k) for k in NATURAL])
            bad("factory", *["%s((x,), %s=%s)" % (name, key, k) for k in NOTNATURAL])
    good("factory", *["PairingFactory((x,), (0.5,), which='%s')" % w for w in ("h", "hole", "p", "particle")])
    bad("factory", *["PairingFactory((x,), (0.5,), which=%s)" % w for w in ("'H'", "''", "'holes'", "None", "0", "'c'", "('h',)")])
    for a in "xyz":
        good("factory", "IsingFactory((x,), (0.5,), '%s')" % a, *["TwoSpinTermFactory((x,), (0.5,), '%s', '%s')" % (a, b) for b in "xyz"])
    for a in ("'p'", "'m'", "'X'", "''", "None", "0", "'xy'", "('x',)"):
        bad("factory", "IsingFactory((x,), (0.5,), %s)" % a, "TwoSpinTermFactory((x,), (0.5,), %s, 'x')" % a, "TwoSpinTermFactory((x,), (0.5,), 'z', %s)" % a)
    # ---- conversions
    conv = (("x1", "SpinOperator('x', (x,))"), ("p1", "SpinOperator('p', (x,))"), ("y1", "SpinOperator('y', (0.5,))"))
    good("conversion", "p1.dagger()", "p1.Schwinger()", "x1.Schwinger()", "x1.conjugate_of(y1)", "x1.same_site(y1)", setup=conv)
    for f in ("x1.conjugate_of", "x1.same_site", "a1.conjugate_of", "a1.same_state"):
        bad("conversion", *["%s(%s)" % (f, v) for v in ("1", "None", "'x'", "(x,)", "x", "st1")], errors=("TypeError",), setup=conv + (("a1", "AoC(1, (x,))"), ("st1", "StateID((x,))")))
    bad("conversion", *["x1.%s(a1)" % f for f in ("conjugate_of", "same_site")] + ["a1.%s(x1)" % f for f in ("conjugate_of", "same_state")], errors=("TypeError",), setup=conv + (("a1", "AoC(1, (x,))"),))
    sc = (("a", "SpinOperator('x', (x,))"), ("b", "SpinOperator('p', (0.5,))"))
    good("matrix", *["SpinInteraction.matrix_function([(0, 'x'), (1, 'p')], %s)" % n for n in ("2", "3")])
    for n in ("0", "-1", "2.0", "None", "'2'", "m", "(2,)"):
        bad("matrix", "SpinInteraction.matrix_function([(0, spx), (1, spx)], %s)" % n, setup=(("spx", "np.array([[0.0, 0.5], [0.5, 0.0]])"),))
    for k in NOTNUMBER:
        if k != "op":
            bad("matrix", "SpinInteraction.matrix_function([(0, spx), (1, spx)], 2, %s)" % k, "SpinInteraction.matrix_function([(0, spx), (1, spx)], 2, coeff=%s)" % k, setup=(("spx", "np.array([[0.0, 0.5], [0.5, 0.0]])"),))
    # ---- bonds
    PT = ["(x,)", "(x, y)", "(0, 1, i)", "[x, 0.5]", "np.array([x, y])", "np.array([x, y, 0.5])"]
    dims = [1, 2, 3, 2, 2, 3]
    for p, d in zip(PT, dims):
        for q, e in zip(PT, dims):
            for dr in ("True", "False"):
                src = "Bond(%s, %s, directional=%s)" % (p, q, dr)
                (good if d == e else bad)("bond", src)
        for w in ("()", "(0, 1, 2, 3)", "[[x, y]]", "np.zeros((2, 2))", "x", "1", "np.zeros(0)"):
            bad("bond", "Bond(%s, %s)" % (p, w), "Bond(%s, %s)" % (w, p), "Bond(%s, %s, directional=False)" % (w, w))
    # ---- lattices
    P2 = {1: "np.array([[0.0]])", 2: "np.array([[0.0, 0.0], [0.5, x]])", 3: "np.array([[0.0, 0.0, 0.0], [0.25, 0.5, 1.0]])"}
    good("lattice", "Lattice(np.array([[0.0]]), np.array([[1.0]]))", "Lattice(np.array([[0.0, 0.0]]), np.array([[1.0, 0.0]]))", "Lattice(np.array([[0.0, 0.0], [0.5, 0.5]]), np.array([[1.0, 0.0], [0.0, 1.0]]), name='s')",
         "Lattice(np.array([[0.0, 0.0, 0.0]]), np.identity(3))", "Lattice(np.array([[0.0, 0.0, 0.0], [0.5, 0, 0]]), np.identity(3)[:2])", "Lattice(np.array([[0.0, 0.0, 0.0]]), np.zeros((0, 3)))",
         "Lattice(np.array([[0.0, 0.0], [1.0, 0.0]]), np.zeros((0, 2)))")
    bad("lattice", "Lattice([[0.0]], np.array([[1.0]]))", "Lattice(np.array([[0.0]]), [[1.0]])", "Lattice(np.array([0.0]), np.array([[1.0]]))", "Lattice(np.array([[0.0]]), np.array([1.0]))",
        "Lattice(((0.0,),), ((1.0,),))", "Lattice(np.zeros((1, 1, 1)), np.array([[1.0]]))", "Lattice(np.array([[0.0]]), np.ones((1, 1, 1)))", "Lattice(None, np.array([[1.0]]))", "Lattice(np.array([[0.0]]), None)")
    bad("lattice", "Lattice(np.zeros((1, 4)), np.identity(4))", "Lattice(np.zeros((1, 4)), np.identity(4)[:1])", "Lattice(np.array([[0.0]]), np.array([[1.0], [2.0]]))", "Lattice(np.zeros((1, 2)), np.array([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]))",
        "Lattice(np.zeros((1, 2)), np.array([[1.0]]))", "Lattice(np.zeros((1, 3)), np.identity(2))", "Lattice(np.zeros((1, 2)), np.identity(3)[:2])", "Lattice(np.array([[0.0]]), np.array([[1.0, 0.0]]))",
        "Lattice(np.zeros((1, 2)), np.array([[1.0, 0.0], [1.0, 0.0]]))", "Lattice(np.zeros((1, 3)), np.array([[1.0, 0.0, 0], [0, 1.0, 0.0], [1.0, 0.0, 0]]))", "Lattice(np.zeros((1, 3)), np.array([[0, 1.0, 0.0], [1.0, 0.0, 0], [1.0, 0.0, 1e-8]]))",
        "Lattice(np.array([[0.0, 0.0], [0.0, 0.0]]), np.identity(2))", "Lattice(np.array([[0.0, 0.0], [0.5, 0.0], [0.5, 1e-8]]), np.identity(2))", "Lattice(np.array([[0.5], [0.0], [0.5]]), np.array([[1.0]]))",
        "Lattice(np.array([[0.0, 0.0], [0.5, 0.0], [0.0, 0.0]]), np.zeros((0, 2)))", errors=("ValueError",))
    lat = (("o", "Lattice(np.array([[0.0, 0.0], [0.5, 0.0]]), np.identity(2), name='s')"),)
    good("lattice query", "o.getIndex(np.array([0.5, 0.0]))", "o.getIndex(np.array([1.5, 2.0]), fold=True)", "o.getSite(0)", "o.getSite(1)", "o.decompose(np.array([1.5, 0.0]))", "o.neighbor_distance(0)", "o.neighbor_distance(2)",
         "o.bonds(0)", "o.bonds(1)", "o.in_cluster(np.array([0.5, 0.0]))", "o.in_cluster(np.array([0.25, 0.0]))", setup=lat)
    bad("lattice query", "o.getIndex((0.5, 0.0))", "o.getIndex([0.5, 0.0])", "o.getIndex(np.array([0.5]))", "o.getIndex(np.array([0.5, 0.0, 0.0]))", "o.getIndex(np.array([[0.5, 0.0]]))", "o.getIndex(0.5)", "o.getIndex(None)",
        "o.getIndex((0.5, 0.0), fold=True)", "o.getIndex(np.array([[0.5, 0.0]]), fold=True)", "o.getSite(-1)", "o.getSite(-2)", "o.getSite(2)", "o.getSite(7)", "o.getSite(0.0)", "o.getSite(1.0)", "o.getSite('0')", "o.getSite(None)", "o.getSite(m)",
        "o.getSite(n + 2)", "o.decompose((1.5, 0.0))", "o.decompose([1.5, 0.0])", "o.decompose(np.array([1.5]))", "o.decompose(np.array([[1.5, 0.0]]))", "o.decompose(None)",
        "o.neighbor_distance(-1)", "o.neighbor_distance(1.0)", "o.neighbor_distance('1')", "o.neighbor_distance(None)", "o.neighbor_distance(m)", "o.bonds(-1)", "o.bonds(1.0)", "o.bonds('1')", "o.bonds(None)", "o.bonds(m)",
        "o.bonds(-1, fold=True)", "o.bonds(-2, only=False)", setup=lat)
    bad("lattice query", "o.getIndex(np.array([1.5, 0.0]))", "o.getIndex(np.array([0.25, 0.0]))", "o.getIndex(np.array([0.5, 0.001]))", errors=("KeyError",), setup=lat)
    bad("lattice query", "o.getIndex(np.array([0.25, 0.0]), fold=True)", "o.decompose(np.array([0.25, 0.0]))", "o.decompose(np.array([1.5, 0.3]))", errors=("RuntimeError", "KeyError"), setup=lat)
    clu = (("o", "Lattice(np.array([[0.0, 0.0], [0.5, 0.0]]), np.zeros((0, 2)), name='c')"),)
    good("lattice query", "o.neighbor_distance(0)", "o.neighbor_distance(1)", setup=clu)
    bad("lattice query", "o.neighbor_distance(2)", "o.neighbor_distance(5)", "o.bonds(2)", errors=("IndexError",), setup=clu)
    # ---- momentum paths
    K3 = "np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]])"
    good("path", "KPath(%s)" % K3, "KPath(%s, 1)" % K3, "KPath(%s, min_num=5, loop=False)" % K3, "KPath([np.array([0.0, 0.0]), np.array([0.0, 1.0])], 3)", "KPath(np.array([[0.0, 0.0, 0.0], [1.0, 2.0, 0.5]]), 2)")
    bad("path", *["KPath(%s, %s)" % (K3, k) for k in ("0", "-1", "m", "1.0", "2.5", "None", "'3'")] + ["KPath(%s, min_num=%s, loop=False)" % (K3, k) for k in ("0", "-4", "1.5")])
    bad("path", "KPath(np.array([[0.0, 1.0]]), 3)", "KPath([], 3)", "KPath(np.zeros((0, 2)), 3)", "KPath([np.array([0.0]), np.array([1.0])], 3)", "KPath([np.zeros(4), np.ones(4)], 3)", "KPath([np.zeros((1, 2)), np.ones((1, 2))], 3)",
        "KPath([np.array([0.0, 1.0]), np.array([1.0])], 3)")
    bad("path", "KPath(np.array([[0.0, 1.0], [0.0, 1.0]]), 3)", "KPath(np.array([[0.0, 1.0], [1.0, 1.0], [1.0, 1.0]]), 3, loop=False)", "KPath(np.array([[0.0, 1.0], [1.0, 1.0], [0.0, 1.0]]), 3)", "KPath(np.array([[0.0, 1.0], [0.0, 1.0], [1.0, 1.0]]), 3)",
        "KPath(np.array([[0.0, 1.0], [2.0, 1.0], [2.0, 1.00001], [1.0, 1.0]]), 3)", errors=("ValueError",))
    bad("path", *["ShowFirstBZ(%s)" % a for a in ("[[1.0, 0.0], [0.0, 1.0]]", "((1.0, 0.0), (0.0, 1.0))", "np.identity(3)", "np.identity(1)", "np.array([1.0, 0.0])", "np.zeros((2, 3))", "None", "np.ones((2, 2, 2))")])
    # ---- database
    for w in ("square", "honeycomb", "kagome", "triangle", "cubic", "chain" if False else "square_cross"):
        good("database", *(["lattice_generator('%s')" % w, "lattice_generator('%s', 2, 1, 1)" % w] if w != "square_cross" else ["special_cluster('square_cross')"]))
        if w != "square_cross":
            for i in range(3):
                for v in ("0", "-1", "1.0", "None", "'1'", "m", "2.5", "(1,)"):
                    a = ["1", "1", "1"]
                    a[i] = v
                    bad("database", "lattice_generator('%s', %s)" % (w, ", ".join(a)), "lattice_generator('%s', num%d=%s)" % (w, i, v))
    bad("database", *["%s(%s)" % (f, w) for f in ("lattice_generator", "special_cluster") for w in ("'Square'", "'square lattice'", "''", "None", "0", "'unknown'")], errors=("KeyError",))
    # ---- lines and polygons
    good("line", "Line2D((0.0, 0.0), (1.0, 2.0))", "Line2D([0, 0], np.array([0.0, 1.0]))", "Line2D((0.0, 0.0), (1e-6, 0.0))")
    bad("line", *["Line2D(%s, (1.0, 2.0))" % p for p in ("(0.0,)", "(0.0, 1.0, 2.0)", "()", "1.0", "[[0.0, 1.0]]")] + ["Line2D((1.0, 2.0), %s)" % p for p in ("(0.0,)", "(0.0, 1.0, 2.0)", "()", "1.0", "[[0.0, 1.0]]")])
    bad("line", "Line2D((1.0, 2.0), (1.0, 2.0))", "Line2D((x, y), (x, y))", "Line2D((1.0, 2.0), (1.0, 2.0 + 1e-12))", "Line2D((1.0, 2.0), (1.0 - 1e-12, 2.0))", errors=("ValueError",))
    ln = (("o", "Line2D((0.0, 0.0), (1.0, 2.0))"),)
    good("line", "o.Coordinate(x)", "o.Coordinate(x, which='y')", "o(1.0, 'x')", "o.PointsFactory()", "o.PointsFactory([0.0, 1.0])", "o.PointsFactory((x,))", setup=ln)
    bad("line", *["o.Coordinate(x, %s)" % w for w in ("'z'", "'X'", "None", "0", "''", "'xy'")] + ["o(1.0, which='z')", "o.PointsFactory([[0.0, 1.0]])", "o.PointsFactory(0.5)", "o.PointsFactory(np.zeros((2, 2)))"], setup=ln)
    bad("line", "o.Coordinate(x, 'y')", setup=(("o", "Line2D((0.0, 1.0), (2.0, 1.0))"),), errors=("RuntimeError",))
    bad("line", "o.Coordinate(x, 'x')", setup=(("o", "Line2D((1.0, 0.0), (1.0, 2.0))"),), errors=("RuntimeError",))
    good("polygon", "Polygon([(0, 0), (1, 0), (0, 1)])", "Polygon(np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]))")
    bad("polygon", "Polygon([(0, 0), (1, 0)])", "Polygon([(0, 0, 0), (1, 0, 0), (0, 1, 0)])", "Polygon([0, 1, 2])", "Polygon([])", "Polygon(np.zeros((3, 1)))", "Polygon(np.zeros((3, 2, 2)))", "Polygon(1.0)")
    bad("polygon", "Polygon([(0, 0), (1, 0), (0, 0)])", "Polygon([(0, 0), (1, 0), (1, 0), (0, 1)])", "Polygon([(0, 0), (1, 0), (0, 1), (0, 1e-12)])", errors=("ValueError",))
    # ---- tables, spaces, total spin, counting, rotations
    good("other", "IndexTable([1, 2, 3])", "IndexTable([])", "IndexTable(('a', 'b'), start=5)", "SimpleHilbertSpace(3)", "SimpleHilbertSpace(3, 2)", "SimpleHilbertSpace((0, 4), 1)", "HilbertSpace(3, ((4, 5), 1))",
         "HilbertSpace((2, 1), ([2, 3], 1))", "base_vectors(2)", "base_vectors((3, 1), container='list')", "TotalSpinMatrices(1)", "TotalSpinMatrices(3)", "TotalSpin(2)", "Permutation(4, 2)", "Combination(4, 0)", "RotationGeneral((1.0, 2.0), 0.5)",
         "RotationGeneral([0.0, 0.0, 1.0], 0.5)")
    bad("other", "IndexTable([1, 'a'])", "IndexTable([1, 2, (3,)])", errors=("TypeError",))
    bad("other", "IndexTable([1, 1])", "IndexTable(['a', 'b', 'a'])", "SimpleHilbertSpace(0)", "SimpleHilbertSpace(3, 4)", "SimpleHilbertSpace((0, 0))", "SimpleHilbertSpace((0, 4), 3)", "SimpleHilbertSpace(-1)", "SimpleHilbertSpace('ab')",
        "SimpleHilbertSpace(3, 1.0)", "HilbertSpace(3, ((2, 5), 1))", "HilbertSpace((2, 3))", "HilbertSpace(((0, -1), 1))", "base_vectors((2, 3))", "base_vectors(2, (2, 1))", "base_vectors('2')", errors=("ValueError",))
    bad("other", "base_vectors(2, container='set')", "SimpleHilbertSpace(3)(container='dict')", "HilbertSpace(3)(container=None)", "TotalSpinMatrices(0)", "TotalSpinMatrices(-1)", "TotalSpinMatrices(1.0)", "TotalSpinMatrices(None)", "TotalSpin(0)", "TotalSpin(2.0)",
        "Permutation(2, 3)", "Combination(-1, 0)", "Combination(2.0, 1)", "RotationGeneral((0.0, 0.0, 0.0), 0.5)", "RotationGeneral((1.0,), 0.5)", "RotationGeneral('xyz', 0.5)", "RotationGeneral(1.0, 0.5)", "RotationGeneral((1.0, 0.0, 0.0, 0.0), 0.5)")
    return out


def settings(c, st):
    """numeric module-level values of every module"""
    out = {}
    for m in c.ip.project.modules:
        for k, v in (st.locals.get("mod:" + m) or {}).items():
            if isinstance(v, Const) and isinstance(v.v, (int, float)) or isinstance(v, Poly):
                out[m, k] = v
    return out


def check(c):
    c.rule("state", "sites, states, ladder and number operators: 1 to 3 real coordinates, natural spin and orbit, known operator type")
    c.rule("spin operator", "spin operators: known operator type and valid site")
    c.rule("derive", "derive() refuses what the constructor refuses and leaves the original unchanged")
    c.rule("term", "terms: numeric coefficients and known classification")
    c.rule("setter", "a refused coefficient leaves the term as it was")
    c.rule("read-only", "attributes that define the identity of an object cannot be assigned")
    c.rule("factory", "the factories refuse invalid sites, spins, orbits, directions, kinds and coefficients")
    c.rule("conversion", "comparisons with objects of another class raise TypeError")
    c.rule("matrix", "matrix functions refuse invalid site numbers and coefficients")
    c.rule("bond", "bonds: two points of equal dimension 1 to 3")
    c.rule("lattice", "lattices: arrays of matching shapes, at most three dimensions, no repeated point or vector")
    c.rule("lattice query", "queries refuse malformed or foreign sites, indices and orders and leave the lattice unchanged")
    c.rule("path", "momentum paths and zones refuse malformed points and numbers")
    c.rule("database", "unknown lattices and non-positive repetition numbers are refused")
    c.rule("line", "lines: two different points of the plane, known coordinate names")
    c.rule("polygon", "polygons: at least three different points of the plane")
    c.rule("other", "tables, Hilbert spaces, total spin, counting and rotations")
    env0 = {n: c.g(m, n) for n, m in NAMES.items()}
    env0["np"] = ExtV("numpy")
    for rule, src, errors, setup in cases():
        def fn():
            st = constant(c)
            env = dict(env0)
            env.update(x=Sym("x", "float"), y=Sym("y", "float"), z=Sym("z", "complex"), fx=Sym("fx", "npfloat"), ix=Sym("ix", "npint"), cz=Sym("cz", "npcomplex"), i=Sym("i", "int"))
            env["n"] = nat(st, "n")
            env["m"] = Sym("m", "int")
            st.assume(cmp_num("lt", env["m"], Const(0)), True)
            env["k2"] = Sym("k2", "int")
            st.assume(cmp_num("gt", env["k2"], Const(1)), True)
            for name, e in setup:
                env[name] = c.do(e, st, **env)
            env.setdefault("op", NONE)
            if errors is None:
                return c.returns(c.ex(src, st, **env))
            o = env.get("o")
            public = PUBLIC.get(next((e for n, e in setup if n == "o"), "").split("(")[0]) if o is not None else None
            before = c.freeze(c.do(public, st, o=o), st) if public else None
            numbers = settings(c, st)
            out = c.ex(src, st, **env)
            r, why = c.refuses(out, errors)
            if r is not True:
                return r, why
            for v, s, n in out.raises:
                now = settings(c, s)
                for k in numbers:
                    if k in now and now[k] != numbers[k] and c.veq(now[k], numbers[k], s) is False:
                        return False, "refused, but %s.%s is changed from %s to %s" % (k[0], k[1], show(numbers[k]), show(now[k]))
                if public:
                    after = c.freeze(c.do(public, s, o=o), s)
                    if c.veq(after, before, s) is False:
                        return False, "refused, but the object is changed from %s to %s" % (show(before)[:120], show(after)[:120])
            return True, ""
        kind = src.split("(")[0]
        f = env0.get(kind)
        if f is None:
            base = next((e for n, e in setup if n == src.split(".")[0] or (n == "o" and src.startswith("setattr"))), "").split("(")[0]
            f = env0.get(base)
        c.run(rule, src + (" with %s" % setup[-1][1] if src.startswith(("o.", "o(", "setattr")) else ""), fn, c.where(f) if f is not None else "")
    return c.finish(EXPL, floor=900)
