"""C26: lattice queries: independent of earlier queries, consistent folding, loud failure."""
import re

from .lattices import *

EXPL = ("Constant propagation through the query methods of Lattice for a family of constant lattices. History: every query of a catalogue is evaluated in the state left behind by every other query (and by longer sequences) and must fold to "
        "the value it has on the fresh lattice. Decomposition, folding and index look-up are evaluated for every point of the cluster under a family of translations and for displaced positions that do not belong to the lattice.")

QUICK = ["chain of three", "square 3x1", "square, skewed vectors", "honeycomb", "ladder", "open square plaquette", "layer in space"]
REFUSALS = ("KeyError", "RuntimeError", "ValueError", "IndexError", "LookupError", "AssertionError")


def arr(c, st, p):
    return L.new_arr(st, (len(p),), [Const(float(x)) for x in p], owner="caller", dtype="float64")


def shift(p, V, n):
    return [p[k] + sum(m * a[k] for m, a in zip(n, V)) for k in range(len(p))]


def misplaced(P, V):
    """a position that is no site"""
    for d in (0.137, 0.211, 0.379):
        x = [y + d for y in P[0]]
        if all(coefficients([a - b for a, b in zip(x, p)], V) is None for p in P):
            return x
    raise Undecided("no free position")


def catalogue(P, V):
    """{title: (expression, extra names)}"""
    far = shift(P[-1], V, [2 * (-1) ** k * (k + 2) for k in range(len(V))])
    near = shift(P[0], V, [1] * len(V))
    bad = misplaced(P, V)
    q = {"distance %d" % n: ("l.neighbor_distance(%d)" % n, {}) for n in (0, 1, 2, 3)}
    q["bonds 1"] = ("l.bonds(1)", {})
    q["bonds 2"] = ("l.bonds(2)", {})
    q["bonds 1 folded"] = ("l.bonds(1, fold=True)", {})
    q["bonds up to 2"] = ("l.bonds(2, only=False)", {})
    q["decompose far"] = ("l.decompose(x)", {"x": far})
    q["decompose near"] = ("l.decompose(x)", {"x": near})
    q["decompose misplaced"] = ("l.decompose(x)", {"x": bad})
    q["index"] = ("l.getIndex(x)", {"x": P[-1]})
    q["index folded"] = ("l.getIndex(x, fold=True)", {"x": far})
    q["index misplaced"] = ("l.getIndex(x)", {"x": bad})
    q["member"] = ("l.in_cluster(x)", {"x": P[0]})
    q["not member"] = ("l.in_cluster(x)", {"x": near if V else bad})
    q["site"] = ("tuple(l.getSite(0))", {})
    q["text"] = ("[str(l), tuple(l.bs.flatten()), l.point_num, l.trans_dim, l.space_dim]", {})
    return q


def normal(v):
    """bond lists as multisets"""
    if v[0] == "value":
        x = strip(v[1])
        if isinstance(x, tuple) and len(x) == 2 and x[1] == "bonds":
            return ("bonds",) + tuple(tuple(sorted(p, key=repr)) if p is not None else None for p in x[0])
        return ("value", x)
    return v[0], tuple(v[1])


def check(c):
    c.rule("history", "a query answers the same after any other queries")
    c.rule("decompose", "cluster point and translation add up to the site; positions that are no sites are refused")
    c.rule("index", "site and index look-up are inverse; foreign sites and indices are refused")
    W = {m: c.where(c.cls_method(LA, "Lattice", m)) for m in ("decompose", "getIndex", "getSite", "in_cluster", "neighbor_distance", "bonds", "__str__")}

    def where(src):
        m = src.split("l.")[1].split("(")[0]
        return W.get(m) or W["__str__"]

    def ask(st, l, q):
        src, names = q
        return fold_value(c, src, st, l=l, **{k: arr(c, st, p) for k, p in names.items()})

    def nm(x):
        return x[1] if isinstance(x, tuple) and x[0] == "raises" else x

    for name, P, V in CASES:
        if name in QUICK or (c.thorough and name not in HEAVY):
            cat = catalogue(P, V)
            base = {}
            try:
                l, st0 = build(c, P, V)
            except (Undecided, Refuted) as e:
                c.add("history", name, None, W["bonds"], str(e))
                continue
            after = {}
            for t, q in cat.items():
                try:
                    v, s = ask(st0.copy(), l, q)
                    base[t], after[t] = normal(v), s
                except (Undecided, Dead, Refuted) as e:
                    c.add("history", "%s: %s" % (name, t), None, where(q[0]), str(e))
            for a, q in cat.items():
                if a not in base:
                    continue
                for b in after:
                    def fn():
                        v, _ = ask(after[b].copy(), l, q)
                        v = normal(v)
                        return v == base[a], "after %s the answer is %s instead of %s" % (cat[b][0], str(v)[:120], str(base[a])[:120])
                    c.run("history", "%s: %s after %s" % (name, a, b), fn, where(q[0]))
            # longer histories: everything in order, then everything again in reversed order; with the precision changed and restored in between
            for mode in ("forward", "backward") + (("precision",) if name != "one point" else ()):
                def fn():
                    s = st0.copy()
                    ts = list(base)
                    if mode == "backward":
                        ts = ts[::-1]
                    for t in ts:
                        _, s = ask(s, l, cat[t])
                    if mode == "precision":
                        s = c.ex("(set_float_point_precision(6), l.bonds(1), l.decompose(x), set_float_point_precision())", s, mod=LA, l=l, x=arr(c, s, cat["decompose far"][1]["x"])).st
                    for t in ts[::-1] + ts:
                        v, s = ask(s, l, cat[t])
                        if normal(v) != base[t]:
                            return False, "%s answers %s instead of %s at the end of a history of %d queries" % (cat[t][0], str(normal(v))[:120], str(base[t])[:120], len(ts))
                    return True
                c.run("history", "%s: all queries %s" % (name, mode), fn, W["bonds"])

            # answers belong to the caller: changing them in place changes no later answer
            for a, q in cat.items():
                if a not in base or not base[a] or base[a][0] == "raises" or a.startswith(("text", "distance", "member", "not member", "index")):
                    continue

                def own():
                    s = st0.copy()
                    names = {k: arr(c, s, p) for k, p in q[1].items()}
                    src = re.sub(r"^tuple\((.*)\)$", r"\1", q[0])
                    how = "[[b.endpoints[k].fill(77.5) for b in part for k in (0, 1) if not isinstance(b.endpoints[k], tuple)] for part in r if part]" if ".bonds(" in src else "[x.fill(77.5) for x in r]" if ".decompose(" in src else "r.fill(77.5)"
                    out = c.ex("[%s for r in [%s]]" % (how, src), s, mod=LA, l=l, **names)
                    if out.value is None:
                        return None, "answer not changeable"
                    s = out.st
                    for b in base:
                        v, s = ask(s, l, cat[b])
                        if normal(v) != base[b]:
                            return False, "%s answers %s instead of %s after the answer of %s was changed in place" % (cat[b][0], str(normal(v))[:120], str(base[b])[:120], src)
                    return True
                c.run("history", "%s: answer of %s changed by the caller" % (name, a), own, where(q[0]))
            def own2():
                out = c.ex("[x.fill(77.5) for x in (l.points, l.vectors, l.bs)]", st0.copy(), mod=LA, l=l)
                if out.value is None:
                    return None, "answer not changeable"
                s = out.st
                for b in base:
                    v, s = ask(s, l, cat[b])
                    if normal(v) != base[b]:
                        return False, "%s answers %s instead of %s after l.points, l.vectors, l.bs were changed in place" % (cat[b][0], str(normal(v))[:120], str(base[b])[:120])
                return True
            c.run("history", "%s: points, vectors and reciprocal vectors changed by the caller" % name, own2, W["__str__"])

        # ------------------------------------------------ decomposition, folding
        n = len(V)
        shifts = list(itertools.product((-1, 0, 1), repeat=n)) if n < 3 else [(0, 0, 0), (1, -1, 0), (-1, -1, -1)]
        shifts += [(5,) + (0,) * (n - 1), (-4,) + (3,) * (n - 1), (2,) * (n - 1) + (-7,)] if n else []
        pts = list(enumerate(P))
        for i, p in pts:
            for sh in shifts:
                def fn():
                    l, st = build(c, P, V)
                    x = shift(p, V, sh)
                    v, _ = fold_value(c, "l.decompose(x)", st, l=l, x=arr(c, st, x))
                    if v[0] == "raises":
                        return False, "refused: %s" % v[1]
                    s, dR = strip(v[1])
                    R = shift([0.0] * len(p), V, sh)
                    ok = near(s, p) and near(dR, R)
                    return ok, "site %s, translation %s instead of %s, %s" % (s, dR, rnd(p), rnd(R))
                c.run("decompose", "%s: point %d translated by %s" % (name, i, sh), fn, W["decompose"])

                def fi():
                    l, st = build(c, P, V)
                    x = shift(p, V, sh)
                    v, s2 = fold_value(c, "l.getIndex(x, fold=True)", st, l=l, x=arr(c, st, x))
                    if v != ("value", i):
                        return False, "folded index %s instead of %d" % (v[1], i)
                    v, s2 = fold_value(c, "l.getIndex(x)", s2, l=l, x=arr(c, s2, x))
                    w, s2 = fold_value(c, "l.in_cluster(x)", s2, l=l, x=arr(c, s2, x))
                    if any(sh):
                        return v[0] == "raises" and w == ("value", False), "a translated point is reported in the cluster (index %s, member %s)" % (v[1], w[1])
                    return v == ("value", i) and w == ("value", True), "point of the cluster: index %s, member %s" % (v[1], w[1])
                c.run("index", "%s: point %d translated by %s" % (name, i, sh), fi, W["getIndex"])

            def fs():
                l, st = build(c, P, V)
                v, st = fold_value(c, "tuple(l.getSite(%d))" % i, st, l=l)
                if v[0] == "raises" or not near(strip(v[1]), p):
                    return False, "%s instead of %s" % (v[1], rnd(p))
                v, st = fold_value(c, "l.getIndex(l.getSite(%d))" % i, st, l=l)
                return v == ("value", i), "index of site %d is %s" % (i, v[1])
            c.run("index", "%s: site %d and back" % (name, i), fs, W["getSite"])
        for k in (-1, -len(P), len(P), len(P) + 3):
            def fo():
                l, st = build(c, P, V)
                v, _ = fold_value(c, "tuple(l.getSite(%d))" % k, st, l=l)
                return v[0] == "raises", "site number %d of %d: %s" % (k, len(P), v[1])
            c.run("index", "%s: getSite(%d)" % (name, k), fo, W["getSite"])
        # ------------------------------------------------ no sites
        for d in (0.137, 0.002, -0.05):
            for sh in [(0,) * n] + ([(3,) + (-1,) * (n - 1)] if n else []):
                def fb():
                    l, st = build(c, P, V)
                    x = [y + d for y in shift(P[-1], V, sh)]
                    if any(coefficients([a - b for a, b in zip(x, p)], V) is not None for p in P):
                        return True
                    for src in ("l.decompose(x)", "l.getIndex(x, fold=True)", "l.getIndex(x)"):
                        s1 = st.copy()
                        v, s2 = fold_value(c, src, s1, l=l, x=arr(c, s1, x))
                        if v[0] != "raises":
                            return False, "%s for a position that is no site (off by %s): %s" % (src, d, v[1])
                        if not set(v[1]) & set(REFUSALS):
                            return None, "raises %s" % v[1]
                    v, s2 = fold_value(c, "l.in_cluster(x)", st, l=l, x=arr(c, st, x))
                    return v == ("value", False), "in_cluster: %s" % (v[1],)
                c.run("decompose", "%s: misplaced by %s near %s" % (name, d, sh), fb, W["decompose"])
    large(c, W)
    return c.finish(EXPL, floor=800)


def large(c, W):
    """clusters of many points and distant translations: sizes around every number the lattice module mentions"""
    V = [[1.0]]
    for k in sizes(c, (LA,), 6, 300, (12, 40), 6):
        P = [[i / (4.0 * k) + (i % 3) / (16.0 * k)] for i in range(k)]      # within a quarter of the cell, all distances distinct modulo the period

        def fl():
            l, st = build(c, P, V)
            for i in sorted({0, 1, k // 2, k - 2, k - 1}):
                for n in (0, 1, -1, 3):
                    x = [P[i][0] + n]
                    v, st = fold_value(c, "l.decompose(x)", st, l=l, x=arr(c, st, x))
                    if v[0] == "raises":
                        return False, "point %d of %d translated by %d is refused: %s" % (i, k, n, v[1])
                    s, dR = strip(v[1])
                    if not (near(s, P[i]) and near(dR, [float(n)])):
                        return False, "point %d of %d translated by %d: site %s, translation %s" % (i, k, n, s, dR)
                    v, st = fold_value(c, "(l.getIndex(x, fold=True), l.in_cluster(x))", st, l=l, x=arr(c, st, x))
                    if v[0] == "raises" or strip(v[1]) != (i, n == 0):
                        return False, "point %d of %d translated by %d: index and membership %s" % (i, k, n, v[1])
            return True
        c.run("decompose", "cluster of %d points" % k, fl, W["decompose"])
    for n in sizes(c, (LA,), 8, 300, (12, 40), 6):
        for name, P, V2 in (("chain", [[0.0], [0.3]], [[1.0]]), ("ribbon", [[0.0, 0.0], [0.3, 0.4]], [[1.0, 0.5]])):
            def ff():
                l, st = build(c, P, V2)
                for m in (n, -n):
                    x = shift(P[1], V2, (m,))
                    v, st = fold_value(c, "l.decompose(x)", st, l=l, x=arr(c, st, x))
                    if v[0] == "raises":
                        return False, "point 1 translated by %d is refused: %s" % (m, v[1])
                    s, dR = strip(v[1])
                    if not (near(s, P[1]) and near(dR, shift([0.0] * len(P[1]), V2, (m,)))):
                        return False, "point 1 translated by %d: site %s, translation %s" % (m, s, dR)
                return True
            c.run("decompose", "%s: translated by %d periods" % (name, n), ff, W["decompose"])


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-7 for x, y in zip(a, b))


def rnd(p):
    return tuple(round(x, 9) + 0.0 for x in p)
