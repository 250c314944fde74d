"""C25: point location relative to lines and polygons."""
import math

from hpa.obl import NotEvaluable

from .common import *

EXPL = ("Line2D: abstract evaluation of LocationRelation, Coordinate and PointsFactory for symbolic representative points, symbolic query point and symbolic tolerance, partitioned by horizontal / vertical / sloped line, sign of the "
        "slope, order of the two points and the sign of the offset from the line. Polygon: abstract evaluation of LocationRelation for a family of convex polygons (all starting vertices, both orientations, several interior "
        "reference points), for every point of every edge and of its prolongations (symbolic position along the supporting line, decided on the exact partition of the parameter by the conditions met) and for representatives "
        "of every cell of the arrangement of the supporting lines, including points just inside and just outside the tolerance.")


def member(c, mod, name):
    e = c.g(mod, "Location")
    return e.info.attrs[name]


def nm(v):
    if isinstance(v, App) and v.op == "enum":
        return v.args[1].v
    if isinstance(v, Const):
        return repr(v.v)            # a constant which is no location
    return None


def leaves(v):
    if isinstance(v, Ite):
        return leaves(v.a) | leaves(v.b)
    return {v}


def conds(v, out):
    if isinstance(v, Ite):
        atoms(v.c, out)
        conds(v.a, out)
        conds(v.b, out)
    return out


def atoms(v, out):
    if isinstance(v, App) and v.op in ("pos", "zero"):
        out.add(v)
        return
    if isinstance(v, App):
        for a in v.args:
            if isinstance(a, Val):
                atoms(a, out)
    elif isinstance(v, Poly):
        for m, _ in v.terms:
            for a, _n in m:
                atoms(a, out)
    elif isinstance(v, Ite):
        atoms(v.c, out)
        atoms(v.a, out)
        atoms(v.b, out)


class NoRoots(Exception):
    pass


def quad(p, t):
    """coefficients of a polynomial of degree at most 2 in t"""
    co = [0.0, 0.0, 0.0]
    for m, k in terms(p).items():
        d = 0
        for a, n in m:
            if a != t:
                raise NoRoots(show(p))
            d += n
        if d > 2 or isinstance(k, complex):
            raise NoRoots(show(p))
        co[d] += k
    return co


def roots(c0, c1, c2):
    if abs(c2) < 1e-14:
        return [] if abs(c1) < 1e-14 else [-c0 / c1]
    d = c1 * c1 - 4 * c2 * c0
    if d < 0:
        return [-c1 / (2 * c2)] if d > -1e-12 else []
    r = math.sqrt(d)
    return [(-c1 - r) / (2 * c2), (-c1 + r) / (2 * c2)]


def breakpoints(p, t):
    """values of t where the sign of p may change; p = polynomial, or polynomial parts inside abs / sqrt plus a constant"""
    try:
        return roots(*quad(p, t))
    except NoRoots:
        pass
    k, f, inner = 0.0, None, None
    for m, co in terms(p).items():
        if not m:
            k = co
        elif len(m) == 1 and m[0][1] == 1 and f is None and isinstance(m[0][0], App) and m[0][0].op in ("abs", "sqrt"):
            f, inner = co, m[0][0]
        else:
            raise NoRoots(show(p))
    if inner is None:
        raise NoRoots(show(p))
    a0, a1, a2 = quad(inner.args[0], t)
    v = -k / f
    if v < 0:
        return []
    if inner.op == "abs":
        return roots(a0 - v, a1, a2) + roots(a0 + v, a1, a2)
    return roots(a0 - v * v, a1, a2)


def partition(value, t, lo, hi):
    """representatives of the cells into which the conditions of `value` divide the interval (lo, hi)"""
    bp = set()
    for a in conds(value, set()):
        bp.update(breakpoints(a.args[0], t))
    xs = sorted({lo, hi} | {b for b in bp if lo < b < hi})
    out = []
    for a, b in zip(xs, xs[1:]):
        if b - a > 1e-13:
            out.append((a + b) / 2)
    return out


def decide_interval(c, st, value, t, lo, hi, want, gap):
    """value equals location `want` for every t of [lo+gap, hi-gap]"""
    if nm(value) is not None:
        return nm(value) == want, "reported %s" % nm(value)
    if any(nm(x) is None for x in leaves(value)):
        return None, "location is %s" % show(value)[:100]
    try:
        pts = partition(value, t, lo + gap, hi - gap)
    except NoRoots as e:
        return None, "condition %s" % e
    if not pts:
        return None, "empty interval"
    for x in pts:
        try:
            got = leaf_at(value, LocEnv({t: x}))
        except NotEvaluable:
            continue
        if nm(got) != want:
            return False, "reported %s at parameter %.6g" % (nm(got), x)
    return True, ""


def leaf_at(v, env):
    memo = {}
    for a in conds(v, set()):
        x = numeval(a.args[0], env, memo)
        if x == 0 and a.op == "pos" or abs(x) < 1e-14:
            raise NotEvaluable("on the border")
        memo[a] = (x > 0) if a.op == "pos" else False
    while isinstance(v, Ite):
        v = v.a if numeval(v.c, env, memo) else v.b
    return v


class LocEnv(Env):
    def __init__(self, fixed):
        super().__init__(1, fixed)


# ------------------------------------------------------------------ polygons: vertices, interior points
def polys(thorough):
    P = {
        "triangle": [(0, 0), (4, 0), (1, 3)],
        "square": [(0, 0), (2, 0), (2, 2), (0, 2)],
        "diamond": [(2, 0), (4, 2), (2, 4), (0, 2)],
        "pentagon": [(0, 0), (3, -1), (5, 1), (4, 4), (1, 3)],
        "hexagon": [(2, 0), (1, 2), (-1, 2), (-2, 0), (-1, -2), (1, -2)],
    }
    if thorough:
        P.update({
            "right triangle": [(-3, -1), (1, -1), (-3, 5)],
            "steep triangle": [(0, 0), (1, 6), (-1, 7)],
            "rectangle": [(-5, 1), (3, 1), (3, 2), (-5, 2)],
            "parallelogram": [(0, 0), (4, 1), (6, 5), (2, 4)],
            "trapezium": [(0, 0), (6, 0), (4, 2), (0, 2)],
            "octagon": [(3, 1), (1, 3), (-1, 3), (-3, 1), (-3, -1), (-1, -3), (1, -3), (3, -1)],
        })
    return P


def inner_points(v):
    n = len(v)
    cx, cy = sum(x for x, _ in v) / n, sum(y for _, y in v) / n
    k = 0.2
    return [(cx, cy), (cx + k * (v[0][0] - cx), cy + k * (v[0][1] - cy)), ((v[1][0] * 5 + v[2][0] * 2 + v[0][0]) / 8, (v[1][1] * 5 + v[2][1] * 2 + v[0][1]) / 8)]


def oracle(v, p, tol):
    """location relative to a convex polygon by distances (None: too close to the tolerance to be binding)"""
    d = min(math.hypot(x - p[0], y - p[1]) for x, y in v)
    if d <= tol / 4:
        return "CORNER"
    if d < tol * 40:
        return None
    n = len(v)
    side = []
    for (ax, ay), (bx, by) in zip(v, v[1:] + v[:1]):
        L2 = (bx - ax) ** 2 + (by - ay) ** 2
        s = ((p[0] - ax) * (bx - ax) + (p[1] - ay) * (by - ay)) / L2
        s = min(1.0, max(0.0, s))
        dist = math.hypot(p[0] - ax - s * (bx - ax), p[1] - ay - s * (by - ay))
        if dist <= tol / 16:
            return "BOUNDARY"
        if dist < tol * 40:
            return None
        side.append((bx - ax) * (p[1] - ay) - (by - ay) * (p[0] - ax))
    return "INSIDE" if all(s > 0 for s in side) or all(s < 0 for s in side) else "OUTSIDE"


def cell_points(v, tol):
    """representatives of the cells of the arrangement of the supporting lines, corners, midpoints and points near the tolerance"""
    n = len(v)
    E = list(zip(v, v[1:] + v[:1]))
    cx, cy = sum(x for x, _ in v) / n, sum(y for _, y in v) / n
    V = {(x, y): 1 for x, y in v}
    X = []
    for i in range(n):
        for j in range(i + 1, n):
            (a, b), (p, q) = E[i], E[j]
            d1, d2 = (b[0] - a[0], b[1] - a[1]), (q[0] - p[0], q[1] - p[1])
            det = d1[0] * d2[1] - d1[1] * d2[0]
            if abs(det) > 1e-9:
                s = ((p[0] - a[0]) * d2[1] - (p[1] - a[1]) * d2[0]) / det
                X.append((a[0] + s * d1[0], a[1] + s * d1[1]))
    pts = list(v) + [x for x in X]
    eps = 0.0625
    for x, y in X:
        for dx, dy in ((1, 0.3), (0.3, 1), (-1, 0.3), (-0.3, 1), (1, -0.3), (0.3, -1), (-1, -0.3), (-0.3, -1)):
            pts.append((x + eps * dx, y + eps * dy))
    for a, b in E:
        for s in (-2.0, -0.5, 0.25, 0.5, 0.9, 1.5, 3.0):
            x, y = a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])
            L = math.hypot(b[0] - a[0], b[1] - a[1])
            nx, ny = -(b[1] - a[1]) / L, (b[0] - a[0]) / L
            pts.append((x, y))
            for k in (tol * 100, -tol * 100, tol / 20, -tol / 20, 0.03, -0.03):
                pts.append((x + k * nx, y + k * ny))
    for x, y in v:
        for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1)):
            pts.append((x + dx * tol / 8, y + dy * tol / 8))
    pts += [(cx, cy), (cx + 50, cy), (cx - 50, cy), (cx, cy + 50), (cx, cy - 50), (cx + 50, cy + 41)]
    out = []
    for p in pts:
        if p not in out:
            out.append(p)
    return out


def sized(c, st, d, T, sign, large):
    """assume the sign of d and whether its magnitude exceeds T"""
    st.assume(cmp_num("gt", App("abs", (d,), "float"), T), large)
    e = d if sign > 0 else neg(d)
    st.assume(cmp_num("gt", e, Const(0)), True)
    st.assume(cmp_num("gt", e, T), large)
    st.assume(cmp_num("gt", neg(e), T), False)


def check(c):
    c.rule("line-side", "ON within the tolerance, else BELOW/ABOVE (LEFT/RIGHT for vertical lines) by the sign of the offset from the line")
    c.rule("line-points", "Coordinate and PointsFactory give points of the line through both representative points; the undetermined coordinate is refused")
    c.rule("line-shape", "IsHorizontal and IsVertical tell the direction; coinciding points are refused")
    c.rule("edge", "points of an edge are BOUNDARY (CORNER at its ends), points of its prolongation are OUTSIDE")
    c.rule("cells", "location of a representative of every cell equals the geometric oracle, for every start vertex, orientation and inner reference point")
    c.rule("polygon-args", "vertex arrays of the wrong shape, too few or coinciding vertices are refused")
    L = c.g(L2, "Line2D")
    W = lambda m: c.where(c.cls_method(L2, "Line2D", m))
    x0, y0, dx, dy, x, y, s, tol, t = [Sym(n, "float") for n in ("x0", "y0", "dx", "dy", "x", "y", "s", "tol", "t")]
    kinds = [("horizontal", None, k) for k in (1, -1)] + [("vertical", k, None) for k in (1, -1)] + [("sloped", a, b) for a in (1, -1) for b in (1, -1)]

    def mkline(kind, a, b, default_tol, form="tuple"):
        st = c.fresh()
        T = Const(1e-10) if default_tol else tol
        if not default_tol:
            st.assume(cmp_num("gt", tol, Const(0)), True)
        X, Y = (x0, add(x0, dx)), (y0, add(y0, dy))
        if kind == "horizontal":
            Y = (y0, y0)
        if kind == "vertical":
            X = (x0, x0)
        for d, k, use in ((dx, a if kind != "horizontal" else b, kind != "vertical"), (dy, b if kind != "vertical" else a, kind != "horizontal")):
            if use:
                sized(c, st, d, T, k, True)
        wrap = {"tuple": "(%s, %s)", "list": "[%s, %s]", "array": "np.array([%s, %s])"}[form]
        src = "L(%s, %s%s)" % (wrap % ("a", "b"), wrap % ("p", "q"), "" if default_tol else ", tol=T")
        line = c.do(src, st, mod=L2, L=L, a=X[0], b=Y[0], p=X[1], q=Y[1], T=T)
        return st, line, T

    for kind, a, b in kinds:
        for dt in (False, True):
            for form in ("tuple", "list", "array"):
                inst = "%s %s%s, %s, %s" % (kind, {1: "+", -1: "-", None: ""}[a], {1: "+", -1: "-", None: ""}[b], "default tolerance" if dt else "any tolerance", form)

                def shape():
                    st, line, T = mkline(kind, a, b, dt, form)
                    return All(c.must(c.do("line.IsHorizontal", st, line=line), st, kind == "horizontal"), c.must(c.do("line.IsVertical", st, line=line), st, kind == "vertical")), "direction flags"
                c.run("line-shape", inst, shape, W("__init__"))
                for where, want in (("on", "ON"), ("within", "ON"), ("within-", "ON"), ("over", "RIGHT" if kind == "vertical" else "ABOVE"), ("under", "LEFT" if kind == "vertical" else "BELOW")):
                    def side():
                        st, line, T = mkline(kind, a, b, dt, form)
                        off = s
                        if where == "on":
                            off = Const(0)
                        else:
                            sized(c, st, s, T, 1 if where in ("within", "over") else -1, not where.startswith("within"))
                        if kind == "vertical":
                            px, py = add(x0, off), y
                        elif kind == "horizontal":
                            px, py = x, add(y0, off)
                        else:
                            px, py = x, add(add(mul(div(dy, dx), sub(x, x0)), y0), off)
                        pt = {"tuple": "(px, py)", "list": "[px, py]", "array": "np.array([px, py])"}[form]
                        out = c.ex("line.LocationRelation(%s%s)" % (pt, "" if dt else ", tol=T"), st, mod=L2, line=line, px=px, py=py, T=T)
                        r, why = c.returns(out)
                        if r is not True:
                            return r, why
                        v = out.value
                        got = {nm(z) for z in leaves(v)}
                        if None in got:
                            return None, show(v)[:80]
                        if got == {want}:
                            return True
                        if want not in got:
                            return False, "reported %s instead of %s" % ("/".join(sorted(got)), want)
                        # undetermined by normal forms: look for an admissible point with the wrong answer
                        for env, memo in samples(pre_of(st), 80):
                            try:
                                g = nm(leaf_at(v, env))
                            except ERRS:
                                continue
                            if g != want:
                                return False, "reported %s instead of %s" % (g, want)
                        return None, "not decided"
                    c.run("line-side", inst + ", point " + where, side, W("LocationRelation"))

            def points():
                st, line, T = mkline(kind, a, b, dt)
                vs = []
                k = Sym("k", "float")
                on = lambda px, py: c.num_eq(sub(mul(d_y, sub(px, x0)), mul(d_x, sub(py, y0))), Const(0), st)
                d_x, d_y = (Const(0) if kind == "vertical" else dx), (Const(0) if kind == "horizontal" else dy)
                for call in ("line.Coordinate(k%s)", "line(k%s)"):
                    for w in ("x", "y", None):
                        out = c.ex(call % ("" if w is None else ", which=%r" % w), st, line=line, k=k)
                        if (kind == "horizontal" and w == "y") or (kind == "vertical" and w != "y"):
                            r = c.refuses(out)
                            r = r[0] if isinstance(r, tuple) else r
                            if r is False:
                                raise Refuted("an undetermined coordinate is not refused")
                            vs.append(r)
                            continue
                        v = c.ok(out)
                        if not isinstance(v, Tup) or len(v.items) != 2:
                            return None, show(v)[:80]
                        r = c.num_eq(v.items[1 if w == "y" else 0], k, st)
                        r2 = on(*v.items)
                        if r is False or r2 is False:
                            raise Refuted("Coordinate(k, %r) is (%s, %s)" % (w, show(v.items[0]), show(v.items[1])))
                        vs += [r, r2]
                    r = c.refuses(c.ex(call % ", which='z'", st, line=line, k=k))
                    vs.append(r[0] if isinstance(r, tuple) else r)
                pts = c.freeze(c.do("line.PointsFactory([k, 0, 1])", st, line=line, k=k), st)
                if not (isinstance(pts, App) and pts.op == "arr"):
                    return None, show(pts)[:80]
                el = pts.args[1].items
                want = [add(x0, mul(k, d_x)), add(y0, mul(k, d_y)), x0, y0, add(x0, d_x), add(y0, d_y)]
                if len(el) != 6:
                    return False, "%d coordinates for three ratios" % len(el)
                r = All([c.num_eq(p, q, st) for p, q in zip(el, want)])
                if r is False:
                    raise Refuted("points at ratios (k, 0, 1) are %s" % ", ".join(show(p) for p in el))
                vs.append(r)
                for call in ("line.PointsFactory()", "line.PointsFactory(None)"):
                    pts = c.freeze(c.do(call, st, line=line), st)
                    if not (isinstance(pts, App) and pts.op == "arr" and len(pts.args[0].items) == 2):
                        return None, show(pts)[:80]
                    el = pts.args[1].items
                    if len(el) != 202:
                        return False, "%d points instead of 101 without ratios" % (len(el) // 2)
                    for i in (0, 1, 50, 99, 100):
                        for x, x_, d_ in ((el[2 * i], x0, d_x), (el[2 * i + 1], y0, d_y)):
                            r = c.num_eq(x, add(x_, scale(d_, i / 100)), st)
                            if r is False:
                                raise Refuted("point %d without ratios is (%s, %s)" % (i, show(el[2 * i]), show(el[2 * i + 1])))
                            vs.append(r)
                return All(vs), ""
            c.run("line-points", "%s %s%s%s" % (kind, {1: "+", -1: "-", None: ""}[a], {1: "+", -1: "-", None: ""}[b], " default tolerance" if dt else ""), points, W("Coordinate"))

    def same():
        st = c.fresh()
        return c.refuses(c.ex("L((a, b), (a, b))", st, mod=L2, L=L, a=x0, b=y0))
    c.run("line-shape", "identical points", same, W("__init__"))
    for bad in ("(1, 2, 3), (4, 5, 6)", "(1,), (2,)", "1, 2", "[(0, 1), (1, 2)], [(0, 1), (3, 3)]", "(1, 2), (1, 2, 3)"):
        c.run("line-shape", "L(%s)" % bad, lambda: c.refuses(c.ex("L(%s)" % bad, c.fresh(), mod=L2, L=L)), W("__init__"))

    # ------------------------------------------------------------ polygons
    P = c.g(PG, "Polygon")
    WP = c.where(c.cls_method(PG, "Polygon", "LocationRelation"))
    TOL = 1e-10
    for name, v in polys(c.thorough).items():
        n = len(v)
        refs = inner_points(v)
        for orient in (1, -1):
            for start in range(n):
                vv = [v[(start + orient * i) % n] for i in range(n)]
                arg = Tup(tuple(Tup((Const(px), Const(py))) for px, py in vv))
                full = start in (0, 1) or c.thorough
                # symbolic position along each supporting line
                for e in range(n if full else 1):
                    A, B = vv[e], vv[(e + 1) % n]
                    for lo, hi, want in ((0.0, 1.0, "BOUNDARY"), (1.0, 64.0, "OUTSIDE"), (-64.0, 0.0, "OUTSIDE")):
                        def edge():
                            st = c.fresh()
                            st.assume(cmp_num("gt", t, Const(lo)), True)
                            st.assume(cmp_num("lt", t, Const(hi)), True)
                            p = c.do("P(v)", st, mod=PG, P=P, v=arg)
                            q = Tup((add(Const(float(A[0])), mul(t, Const(float(B[0] - A[0])))), add(Const(float(A[1])), mul(t, Const(float(B[1] - A[1]))))))
                            out = c.ex("p.LocationRelation(q, r)", st, mod=PG, p=p, q=q, r=Tup(tuple(Const(float(z)) for z in refs[start % len(refs)])))
                            r, why = c.returns(out)
                            if r is not True:
                                return r, why
                            return decide_interval(c, st, out.value, t, lo, hi, want, 1e-8)
                        c.run("edge", "%s from vertex %d %s, edge %d, %s" % (name, start, "forward" if orient > 0 else "backward", e, {0.0: "on the edge", 1.0: "beyond its end", -64.0: "before its start"}[lo]), edge, WP)
                if not full and not (start == n - 1):
                    continue
                for ri, ref in enumerate(refs):
                    if not c.thorough and (ri + start) % len(refs):
                        continue
                    for tl in (TOL, 1e-4):
                        pts = cell_points(v, tl)
                        if not c.thorough:
                            pts = pts[(start + ri) % 3::3]

                        def cells():
                            st = c.fresh()
                            p = c.do("P(v)", st, mod=PG, P=P, v=arg)
                            k = 0
                            for px, py in pts:
                                want = oracle([(float(g), float(h)) for g, h in v], (px, py), tl)
                                if want is None:
                                    continue
                                out = c.ex("p.LocationRelation(q, r%s)" % ("" if tl == TOL else ", tol=%r" % tl), st, mod=PG, p=p, q=Tup((Const(float(px)), Const(float(py)))), r=Tup(tuple(Const(float(z)) for z in ref)))
                                r, why = c.returns(out)
                                if r is not True:
                                    return r, why
                                g = nm(out.value)
                                if g is None:
                                    return None, show(out.value)[:80]
                                if g != want:
                                    return False, "point (%.12g, %.12g) is reported %s instead of %s" % (px, py, g, want)
                                k += 1
                            return True if k else None
                        c.run("cells", "%s from vertex %d %s, reference %d, tolerance %g" % (name, start, "forward" if orient > 0 else "backward", ri, tl), cells, WP)

    # non-convex polygons: the location must not depend on which interior point is given as reference
    ell = Tup(tuple(Tup((Const(px), Const(py))) for px, py in [(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)]))
    for q, r, want in (((3, 0.5), (0.5, 0.5), "INSIDE"), ((0.5, 3), (0.5, 0.5), "INSIDE"), ((3, 3), (0.5, 0.5), "OUTSIDE"), ((0.25, 0.75), (0.5, 0.5), "INSIDE"), ((3, 0), (0.5, 0.5), "BOUNDARY"), ((0.5, 1), (0.5, 0.5), "INSIDE")):
        def nonconvex():
            st = c.fresh()
            p = c.do("P(v)", st, mod=PG, P=P, v=ell)
            out = c.ex("p.LocationRelation(q, r)", st, mod=PG, p=p, q=Tup(tuple(Const(float(z)) for z in q)), r=Tup(tuple(Const(float(z)) for z in r)))
            rr, why = c.returns(out)
            if rr is not True:
                return rr, why
            g = nm(out.value)
            return (None if g is None else g == want), "reported %s instead of %s" % (g, want)
        c.run("cells", "L-shaped polygon, point (%g, %g)" % q, nonconvex, WP)
    WI = c.where(c.cls_method(PG, "Polygon", "__init__"))
    for bad in ("[(0, 0), (1, 1)]", "[(0, 0, 0), (1, 1, 0), (2, 0, 0)]", "[0, 1, 2]", "[(0, 0), (1, 0), (0, 0)]", "[(0, 0), (1, 0), (1, 1), (1, 0)]", "[[(0, 0), (1, 1), (2, 0)]]", "[]"):
        c.run("polygon-args", "Polygon(%s)" % bad, lambda: c.refuses(c.ex("P(%s)" % bad, c.fresh(), mod=PG, P=P)), WI)

    def copies():
        st = c.fresh()
        p = c.do("P(v)", st, mod=PG, P=P, v=ell)
        return All(c.veq(c.do("p.vertices_num", st, p=p), Const(6), st), c.must(c.do("bool(np.all(p.vertices == v))", st, mod=PG, p=p, v=ell), st)), "vertices attribute"
    c.run("polygon-args", "vertices accessor", copies, WI)
    large(c, P, L, WP, W)
    return c.finish(EXPL, floor=300)


def large(c, P, L, WP, W):
    """polygons with many corners, long lists of ratios: sizes around every number the modules mention"""
    for n in sizes(c, (PG,), 7, 130, (9, 16, 33), 6):
        v = [(3 * math.cos(2 * math.pi * (i + 0.1) / n) + 0.5, 2 * math.sin(2 * math.pi * (i + 0.1) / n) - 0.25) for i in range(n)]
        h = n // 2
        for e in sorted({0, 1, h, n - 2, n - 1}):
            a, b = v[e], v[(e + 1) % n]
            mid = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
            shifted = lambda k: (mid[0] + k * (mid[0] - 0.5), mid[1] + k * (mid[1] + 0.25))

            def many():
                st = c.fresh()
                p = c.do("P(v)", st, mod=PG, P=P, v=Tup(tuple(Tup((Const(x), Const(y))) for x, y in v)))
                for q, want in ((a, "CORNER"), (mid, "BOUNDARY"), (shifted(1e-3), "OUTSIDE"), (shifted(-1e-3), "INSIDE"), (shifted(2.0), "OUTSIDE"), (shifted(-0.9), "INSIDE"), ((2 * b[0] - a[0], 2 * b[1] - a[1]), "OUTSIDE")):
                    out = c.ex("p.LocationRelation(q, r)", st, mod=PG, p=p, q=Tup((Const(q[0]), Const(q[1]))), r=Tup((Const(0.5), Const(-0.25))))
                    r, why = c.returns(out)
                    if r is not True:
                        return r, why
                    g = nm(out.value)
                    if g is None:
                        return None, show(out.value)[:80]
                    if g != want:
                        return False, "polygon of %d corners: point (%.9g, %.9g) at edge %d is reported %s instead of %s" % (n, q[0], q[1], e, g, want)
                return True
            c.run("cells", "polygon of %d corners, edge %d" % (n, e), many, WP)
    for n in sizes(c, (L2,), 4, 600, (7, 150), 6):
        def ratios():
            st = c.fresh()
            r = [(-1) ** i * i / 8.0 for i in range(n)]
            pts = c.freeze(c.do("L((1.0, 2.0), (3.0, 1.0)).PointsFactory(r)", st, mod=L2, L=L, r=Tup(tuple(Const(x) for x in r))), st)
            if not (isinstance(pts, App) and pts.op == "arr") or not all(isinstance(x, Const) for x in pts.args[1].items):
                return None, show(pts)[:80]
            el = [x.v for x in pts.args[1].items]
            if len(el) != 2 * n:
                return False, "%d coordinates for %d ratios" % (len(el), n)
            for i, x in enumerate(r):
                if abs(el[2 * i] - 1 - 2 * x) > 1e-9 or abs(el[2 * i + 1] - 2 + x) > 1e-9:
                    return False, "%d ratios: point %d is (%s, %s)" % (n, i, el[2 * i], el[2 * i + 1])
            return True
        c.run("line-points", "%d ratios" % n, ratios, W("PointsFactory"))
