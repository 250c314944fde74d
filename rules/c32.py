"""C32: neighbour bonds of a lattice."""
from .lattices import *

EXPL = ("Constant propagation through Lattice.neighbor_distance and Lattice.bonds for a family of constant lattices (one to three dimensions, fewer translations than dimensions, none at all, skewed, turned and elongated bases, clusters "
        "reaching over several cells) and neighbour orders; the folded bond lists are compared with an independent enumeration of all pairs of sites whose search range follows from the dual vectors.")


def check(c):
    c.rule("distance", "the nth neighbour distance is the nth smallest distance of two sites")
    c.rule("bonds", "bonds(nth) lists every pair of sites at that distance exactly once per cell, starting in the cluster")
    c.rule("onsite", "bonds(0) lists one bond from every point to itself")
    ndist = c.where(c.cls_method(LA, "Lattice", "neighbor_distance"))
    wb = c.where(c.cls_method(LA, "Lattice", "bonds"))
    for name, P, V in CASES:
        top = (2 if name in HEAVY else 4) + (2 if c.thorough else 0)
        ds, _ = shells(P, V, top)
        for n in range(0, top + 1):
            def fd():
                l, st = build(c, P, V)
                (k, v), _ = fold_value(c, "l.neighbor_distance(%d)" % n, st, l=l)
                if n >= len(ds):
                    return k == "raises", "%d distances exist, answer %s" % (len(ds), v)
                if k == "raises":
                    return False, "raises %s" % v
                return abs(v - ds[n]) < 6e-5, "%s instead of %s" % (v, ds[n])
            c.run("distance", "%s: order %d" % (name, n), fd, ndist)

        def f0():
            l, st = build(c, P, V)
            (k, v), _ = fold_value(c, "l.bonds(0)", st, l=l)
            if k == "raises":
                return False, "raises %s" % v
            intra, inter = strip(v)[0]
            return sorted(b[:2] for b in intra) == sorted((rnd(p), rnd(p)) for p in P) and not inter, "%s" % (intra,)
        c.run("onsite", name, f0, wb)
        for n in range(1, min(top, len(ds) - 1) + 1):
            modes = [(True, False), (False, False), (True, True)] + ([(False, True)] if c.thorough else [])
            for only, fold in modes:
                if name in HEAVY and not only and not c.thorough and n != 2:
                    continue

                def fb():
                    l, st = build(c, P, V)
                    (k, v), _ = fold_value(c, "l.bonds(%d, only=%s, fold=%s)" % (n, only, fold), st, l=l)
                    if k == "raises":
                        return False, "raises %s" % v
                    return judge(strip(v)[0], P, V, ds, n, only, fold)
                c.run("bonds", "%s: bonds(%d, only=%s, fold=%s)" % (name, n, only, fold), fb, wb)
    large(c, ndist, wb)
    return c.finish(EXPL, floor=200)


def large(c, ndist, wb):
    """distant neighbours and clusters of many points: sizes around every number the lattice module mentions"""
    P, V = [[0.0], [0.3]], [[1.0]]
    for n in sizes(c, (LA,), 6, 130, (9, 24), 5):
        def fd():
            ds, _ = shells(P, V, n)
            l, st = build(c, P, V)
            (k, v), _ = fold_value(c, "l.neighbor_distance(%d)" % n, st, l=l)
            if k == "raises":
                return False, "raises %s" % v
            return abs(v - ds[n]) < 6e-5, "%s instead of %s" % (v, ds[n])
        c.run("distance", "chain of two: order %d" % n, fd, ndist)

        def fb():
            ds, _ = shells(P, V, n)
            l, st = build(c, P, V)
            (k, v), _ = fold_value(c, "l.bonds(%d)" % n, st, l=l)
            if k == "raises":
                return False, "raises %s" % v
            return judge(strip(v)[0], P, V, ds, n, True, False)
        c.run("bonds", "chain of two: bonds(%d)" % n, fb, wb)
    for n in sizes(c, (LA,), 6, 130, (20,), 5):
        def f1():
            # one site per cell: the n-th neighbours lie n cells apart
            l, st = build(c, [[0.25]], [[1.0]])
            (k, v), st = fold_value(c, "l.neighbor_distance(%d)" % n, st, l=l)
            if k == "raises" or abs(v - n) > 6e-5:
                return False, "distance %s instead of %s" % (v, n)
            (k, v), st = fold_value(c, "l.bonds(%d)" % n, st, l=l)
            if k == "raises":
                return False, "raises %s" % v
            return judge(strip(v)[0], [[0.25]], [[1.0]], [float(i) for i in range(n + 1)], n, True, False)
        c.run("bonds", "chain of one: bonds(%d)" % n, f1, wb)
    for k in sizes(c, (LA,), 6, 130, (12, 30), 5):
        P2, V2 = [[float(i)] for i in range(k)], [[float(k)]]

        def fk():
            ds = [float(i) for i in range(4)]
            for n in (1, 2):
                l, st = build(c, P2, V2)
                (kind, v), _ = fold_value(c, "l.bonds(%d)" % n, st, l=l)
                if kind == "raises":
                    return False, "raises %s" % v
                intra, inter = strip(v)[0]
                got = sorted(tuple(sorted((round(b[0][0]), round(b[1][0])))) for b in list(intra) + list(inter))
                steps = {(a % k, (b - a)) for a, b in got}
                if len(got) != k or any(b - a != n for a, b in got) or len(steps) != k or len(intra) != k - n:
                    return False, "bonds(%d) of a ring of %d sites: %d + %d bonds" % (n, k, len(intra), len(inter))
            return True
        c.run("bonds", "chain of %d points" % k, fk, wb)


def rnd(p):
    return tuple(round(x, 9) + 0.0 for x in p)


def place(x, P, V):
    for i, p in enumerate(P):
        R = coefficients([a - b for a, b in zip(x, p)], V)
        if R is not None:
            return i, R
    return None


def judge(parts, P, V, ds, n, only, fold):
    if len(parts) != 2:
        return False, "not two collections"
    intra, inter = parts
    lo, hi = (ds[n] - 1e-6 if only else 1e-6), ds[n] + 1e-6
    want = {canonical(*k): d for k, d in enumerate_pairs(P, V, hi).items() if d >= lo and (k[0], any(k[2])) != (k[1], False)}
    want_in = {k for k in want if not any(k[2])}
    want_out = {k for k in want if any(k[2])}
    zero = (0,) * len(V)
    got = []
    for p, q, *_ in intra or ():
        a, b = place(p, P, V), place(q, P, V)
        if a is None or b is None or a[1] != zero or b[1] != zero:
            return False, "intra bond %s-%s does not join two points of the cluster" % (p, q)
        got.append(canonical(a[0], b[0], zero))
    if sorted(got) != sorted(want_in):
        return False, diff("intra", got, want_in)
    got = []
    for p, q, *_ in inter or ():
        a, b = place(p, P, V), place(q, P, V)
        if a is None or b is None or a[1] != zero:
            return False, "inter bond %s-%s does not start in the cluster" % (p, q)
        if fold:
            if b[1] != zero:
                return False, "folded bond %s-%s ends outside the cluster" % (p, q)
            got.append(tuple(sorted((a[0], b[0]))))
        else:
            if b[1] == zero:
                return False, "inter bond %s-%s ends in the cluster" % (p, q)
            got.append(canonical(a[0], b[0], b[1]))
    w = [tuple(sorted(k[:2])) for k in want_out] if fold else want_out
    if sorted(got) != sorted(w):
        return False, diff("inter", got, w)
    return True


def diff(what, got, want):
    g, w = sorted(got), sorted(want)
    miss = [k for k in w if g.count(k) < w.count(k)]
    more = [k for k in g if g.count(k) > w.count(k)]
    return "%s bonds: missing %s, surplus %s (site, site, translation)" % (what, miss[:3], more[:3])
