"""Families of constant lattices, folding of their queries and an independent enumeration of their sites (shared by C26, C32)."""
import itertools
import math

from .common import *
from .c16 import fresh
from .c19 import dot, solve

R3_ = math.sqrt(3)


def rot(v, a):
    return [v[0] * math.cos(a) - v[1] * math.sin(a), v[0] * math.sin(a) + v[1] * math.cos(a)]


CASES = [
    # name, points, vectors
    ("chain", [[0.0]], [[1.0]]),
    ("chain of three", [[0.0], [1.0], [2.0]], [[3.0]]),
    ("dimerised chain", [[0.0], [0.4]], [[1.0]]),
    ("chain of distant points", [[0.0], [10.4]], [[1.0]]),
    ("square", [[0.0, 0.0]], [[1.0, 0.0], [0.0, 1.0]]),
    ("square with a reversed vector, off the origin", [[-2.3, 0.7]], [[0.0, -1.0], [1.0, 0.0]]),
    ("square 2x1", [[0.0, 0.0], [1.0, 0.0]], [[2.0, 0.0], [0.0, 1.0]]),
    ("square 3x1", [[0.0, 0.0], [1.0, 0.0], [2.0, 0.0]], [[3.0, 0.0], [0.0, 1.0]]),
    ("square, diagonal vectors", [[0.0, 0.0]], [[1.0, 1.0], [1.0, -1.0]]),
    ("square, skewed vectors", [[0.0, 0.0]], [[1.0, 0.0], [3.0, 1.0]]),
    ("square 2x1, skewed vectors, points in other cells", [[4.0, 1.0], [0.0, 0.0]], [[2.0, 0.0], [3.0, 1.0]]),
    ("rectangle", [[0.0, 0.0], [0.3, 1.1]], [[1.0, 0.0], [0.0, 2.5]]),
    ("oblique", [[0.0, 0.0]], [[1.0, 0.2], [0.35, 1.3]]),
    ("triangle, turned", [rot([0.2, 0.1], 0.3)], [rot([1.0, 0.0], 0.3), rot([0.5, R3_ / 2], 0.3)]),
    ("honeycomb", [[0.0, 0.0], [0.0, 1 / R3_]], [[0.5, R3_ / 2], [-0.5, R3_ / 2]]),
    ("honeycomb, lattice constant 2.46", [[0.0, 0.0], [0.0, 2.46 / R3_]], [[1.23, 1.23 * R3_], [-1.23, 1.23 * R3_]]),
    ("kagome", [[0.0, 0.0], [0.25, R3_ / 4], [0.5, 0.0]], [[1.0, 0.0], [0.5, R3_ / 2]]),
    ("ladder", [[0.0, 0.0], [0.0, 2.5]], [[1.0, 0.0]]),
    ("tilted ladder", [[0.0, 0.0], [-0.5, 0.8]], [[1.2, 0.9]]),
    ("triangular cluster", [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], []),
    ("one point", [[0.5, 0.5]], []),
    ("open square plaquette", [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]], []),
    ("cube", [[0.0, 0.0, 0.0]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
    ("face-centred cube", [[0.0, 0.0, 0.0]], [[0.0, 0.5, 0.5], [0.5, 0.0, 0.5], [0.5, 0.5, 0.0]]),
    ("layer in space", [[0.0, 0.0, 0.0], [0.5, 0.5, 0.7]], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]),
    ("wire in space", [[0.0, 0.0, 0.0], [0.3, 0.4, 0.2]], [[0.0, 0.0, 1.0]]),
]
HEAVY = {"cube", "face-centred cube", "square 2x1, skewed vectors, points in other cells"}


def build(c, points, vectors, st=None, name="lattice"):
    """(lattice, state) evaluated from constant tables"""
    st = st or fresh(c)
    d = len(points[0])
    P = L.new_arr(st, (len(points), d), [Const(x) for p in points for x in p], owner="caller", dtype="float64")
    V = L.new_arr(st, (len(vectors), d), [Const(x) for p in vectors for x in p], owner="caller", dtype="float64")
    out = c.ex("Lattice(p, v, 'x')", st, mod=LA, p=P, v=V)
    if out.value is None or out.raises:
        raise Refuted("Lattice() refuses a valid lattice" if out.value is None else "Lattice() may raise")
    return out.value, out.st


SHAPE = {
    "bonds": "[[[(tuple(b.endpoints[0]), tuple(b.endpoints[1]), b.directional) for b in part] if part is not None else None for part in (%s)], 'bonds']",
    "pair": "[tuple(x) for x in (%s)]",
    "array": "[tuple(x) for x in (%s)]",
}


def kind(src):
    return "bonds" if ".bonds(" in src else "pair" if ".decompose(" in src else "plain"


def fold_value(c, src, st, **env):
    """('value', Python value) or ('raises', class names) of a fully folded expression; Undecided when it does not fold"""
    out = c.ex(SHAPE.get(kind(src), "%s") % src, st, mod=LA, **env)
    if out.value is None:
        if not out.raises:
            raise Undecided("%s does not end" % src)
        names = set(c.ip.exc_class_names(out.raises[0][0], out.raises[0][1])[:1])
        return ("raises", sorted(names)), out.raises[0][1]
    if out.raises:
        raise Undecided("%s may raise" % src)
    return ("value", plain(c, out.value, out.st)), out.st


def plain(c, v, st):
    f = c.freeze(v, st)

    def go(x):
        if isinstance(x, Const):
            return round(x.v, 9) + 0.0 if isinstance(x.v, float) else x.v
        if isinstance(x, Tup):
            return tuple(go(y) for y in x.items)
        if isinstance(x, App) and x.op in ("list", "set", "dict", "arr") or isinstance(x, App) and x.op.startswith("obj:"):
            return (x.op,) + tuple(go(y) for y in x.args)
        if isinstance(x, App) and x.op in ("strcat", "np.array2string", "str", "repr"):
            return show(x)
        raise Undecided("not folded: %s" % show(x)[:80])
    return go(f)


def strip(x):
    """nested tuples without the container tags"""
    if isinstance(x, tuple):
        if x and x[0] in ("list", "set"):
            x = x[1:]
        return tuple(strip(y) for y in x)
    return x


def coefficients(vec, vectors):
    """integer combination of the translation vectors giving vec, None if there is none"""
    if not vectors:
        return () if all(abs(x) < 1e-6 for x in vec) else None
    G = [[dot(a, b) for b in vectors] for a in vectors]
    co = solve(G, [dot(a, vec) for a in vectors])
    n = tuple(int(round(x)) for x in co)
    rest = [vec[k] - sum(m * a[k] for m, a in zip(n, vectors)) for k in range(len(vec))]
    return n if all(abs(x) < 1e-6 for x in rest) else None


def enumerate_pairs(points, vectors, upto):
    """{(i, j, R)}: distance, for all pairs (site i of the cell, site j translated by R) nearer than upto; oriented both ways"""
    n = len(vectors)
    if n:
        G = [[dot(a, b) for b in vectors] for a in vectors]
        inv = [solve(G, [1.0 if i == k else 0.0 for i in range(n)]) for k in range(n)]
        diam = max([math.dist(p, q) for p in points for q in points])
        # |n_k| <= |R| |b_k|, b_k the dual vector: |b_k|^2 = (G^-1)_kk
        ranges = [range(-m, m + 1) for m in (int(math.sqrt(inv[k][k]) * (upto + diam)) + 1 for k in range(n))]
    else:
        ranges = []
    out = {}
    for co in itertools.product(*ranges):
        R = [sum(m * a[k] for m, a in zip(co, vectors)) for k in range(len(points[0]))]
        for i, p in enumerate(points):
            for j, q in enumerate(points):
                d = math.dist(p, [x + y for x, y in zip(q, R)])
                if d <= upto:
                    out[i, j, co] = d
    return out


def shells(points, vectors, count):
    """sorted distances (count of them or all there are) and the pairs up to the last one"""
    r = 1.0
    while True:
        pairs = enumerate_pairs(points, vectors, r)
        ds = []
        for d in sorted(pairs.values()):
            if not ds or d - ds[-1] > 1e-6:
                ds.append(d)
        if len(ds) > count or (not vectors and r > 1e3):
            return ds[:count + 1], pairs
        r *= 1.5


def canonical(i, j, R):
    a, b = (i, j, R), (j, i, tuple(-x for x in R))
    return min(a, b)
