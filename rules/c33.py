"""C33: momentum paths and drawn Brillouin zones."""
from .lattices import *
from .c19 import wigner_seitz, same_set
from .c20 import line_of

EXPL = ("KPath is evaluated by constant propagation of the displacements with symbolic starting coordinates (so for every position of the path) over a family of anchor sequences in two and three dimensions, densities, open and closed; every returned "
        "point, the number of points per segment and the reported indices are compared with the definition; refusals are checked. ShowFirstBZ and the drawing script are evaluated over constant bases with the calls of the plotting library recorded as "
        "effects: the infinite lines carrying the drawn segments must be bisectors of reciprocal vectors and contain every side of the Wigner-Seitz cell, markers must be reciprocal lattice points (or the documented special points) under their labels.")

PATHS = [
    ("x axis", [[0, 0], [1, 0]]),
    ("one to two", [[0, 0], [1, 0], [1, 2]]),
    ("square", [[0, 0], [3.141592653589793, 0], [3.141592653589793, 3.141592653589793]]),
    ("triangle", [[0.0, 0.0], [2 * math.pi / 3, 2 * math.pi / R3_], [4 * math.pi / 3, 0.0]]),
    ("back and forth", [[0, 0], [2.5, 0], [0, 0], [0, -2.5]]),
    ("closed already", [[0.5, 0.5], [2.5, 0.5], [2.5, -1.0], [-0.5, -1.0]]),
    ("descending", [[4.0, -1.5], [1.0, 2.5], [-3.0, -0.5], [-3.25, -0.5], [2.0, 0.25]]),
    ("rounded down", [[0.0, 0.0], [8.80391747139269, 0.0]]),
    ("rounded down 2", [[0.0, 0.0], [6.515929727227629, 0.0], [6.515929727227629, 6.515929727227629], [0.0, 6.515929727227629]]),
    ("rounded down 3", [[0.0, 0.0], [0.0, 0.9385958677423489], [-0.9385958677423489, 0.0]]),
    ("far apart", [[0.0, 0.0], [0.01, 0.0], [0.01, 0.4]]),
    ("three dimensions", [[0, 0, 0], [1, 0, 0], [1, 1, 0], [1, 1, 1]]),
    ("cubic", [[0.0, 0.0, 0.0], [math.pi, 0.0, 0.0], [math.pi, math.pi, math.pi]]),
    ("space diagonal", [[-0.5, 2.0, 1.0], [0.5, 0.0, -1.0], [0.25, 0.5, 0.125], [-2.0, 2.0, 1.0]]),
]


def anchors(c, st, pts, form, symbolic):
    o = [Sym("o%d" % k, "float") if symbolic else Const(0.0) for k in range(len(pts[0]))]
    el = [[add(x, Const(float(y))) for x, y in zip(o, p)] for p in pts]
    if form == "array":
        return L.new_arr(st, (len(pts), len(pts[0])), [x for p in el for x in p], owner="caller", dtype="float64"), o
    r = [L.new_arr(st, (len(p),), list(p), owner="caller", dtype="float64") for p in el]
    return (Tup(tuple(r)) if form == "tuple" else st.new(ListRec(r, owner="caller"))), o


def rows(c, v, st):
    f = c.freeze(v, st)
    if not (isinstance(f, App) and f.op == "arr" and isinstance(f.args[0], Tup) and all(isinstance(x, Const) for x in f.args[0].items)):
        raise Undecided("form of the points: %s" % show(f)[:60])
    sh = [x.v for x in f.args[0].items]
    if len(sh) != 2:
        raise Refuted("points of shape %s" % sh)
    return [f.args[1].items[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])]


def path(c, F, pts, n, loop, form, symbolic, indices):
    st = fresh(c)
    a, o = anchors(c, st, pts, form, symbolic)
    before = c.freeze(a, st)
    kw = [] if n is None else ["min_num=%d" % n]
    kw += [] if loop is None else ["loop=%s" % loop]
    kw += [] if indices is None else ["return_indices=%s" % indices]
    out = c.ex("F(a%s)" % "".join(", " + k for k in kw), st, mod=LA, F=F, a=a)
    r, why = c.returns(out)
    if r is not True:
        return r, why
    st = out.st
    if c.freeze(a, st) != before:
        return False, "the given points are modified"
    v = out.value
    idx = None
    if indices is not False:
        it = c.items(v, st)
        if len(it) != 2:
            return False, "%d results" % len(it)
        v, idx = it[0], [c.freeze(x, st) for x in c.items(it[1], st)]
        if not all(isinstance(x, Const) for x in idx):
            return None, "indices not folded"
        idx = [x.v for x in idx]
    got = []
    for row in rows(c, v, st):
        q = [sub(x, y) for x, y in zip(row, o)]
        if len(q) != len(pts[0]) or not all(isinstance(x, Const) for x in q):
            return None, "point %s" % ", ".join(show(x)[:40] for x in q)
        got.append([x.v for x in q])
    n = 100 if n is None else n
    seq = pts + ([pts[0]] if loop in (None, True) else [])
    lens = [math.dist(p, q) for p, q in zip(seq, seq[1:])]
    m = min(lens)
    pos = 0
    want_idx = [0]
    for s, (p, q, ln) in enumerate(zip(seq, seq[1:], lens)):
        # number of points of this segment: up to the next anchor
        k = 1
        while pos + k < len(got) and not near(got[pos + k], q):
            k += 1
        if pos + k >= len(got):
            return False, "the path does not reach anchor %d" % (s + 1)
        want = n * ln / m
        if not want - 1 - 1e-9 < k < want + 1 + 1e-9 or ln == m and k != n:
            return False, "%d points on segment %d instead of %.6g" % (k, s, want)
        for j in range(k + 1):
            w = [x + (y - x) * j / k for x, y in zip(p, q)]
            if not near(got[pos + j], w):
                return False, "point %d of segment %d is %s instead of %s" % (j, s, rnd(got[pos + j]), rnd(w))
        pos += k
        want_idx.append(pos)
    if pos != len(got) - 1:
        return False, "%d points behind the last anchor" % (len(got) - 1 - pos)
    if idx is not None and idx != want_idx:
        return False, "indices %s instead of %s" % (idx, want_idx)
    return True, ""


def near(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def rnd(p):
    return tuple(round(x, 9) + 0.0 for x in p)


# ------------------------------------------------------------------ drawings
def numbers(v):
    """float of a constant, list of floats of a sequence, None otherwise"""
    if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
        return float(v.v)
    if isinstance(v, Tup):
        it = v.items
    elif isinstance(v, App) and v.op == "list":
        it = v.args
    elif isinstance(v, App) and v.op == "arr" and len(v.args[0].items) == 1:
        it = v.args[1].items
    else:
        return None
    r = [numbers(x) for x in it]
    return r if all(isinstance(x, float) for x in r) else None


def drawn(effects):
    """(segments, markers, labels) of the recorded drawing calls"""
    seg, mark, lab = [], [], []
    for e in effects:
        if not isinstance(e[0], str) or not e[0].startswith("call:"):
            continue
        m = e[0].split(".")[-1]
        args = list(e[1][0])
        if e[0].startswith("call:.") and args:
            args = args[1:]
        kw = dict(e[1][1])
        if m in ("plot", "scatter"):
            xs, ys = (numbers(x) for x in args[:2]) if len(args) >= 2 else (None, None)
            if xs is None or ys is None:
                raise Undecided("coordinates of %s" % m)
            xs, ys = (x if isinstance(x, list) else [x] for x in (xs, ys))
            if len(xs) != len(ys):
                raise Undecided("lengths of the coordinates")
            p = list(zip(xs, ys))
            if len(p) > 1 and m == "plot" and kw.get("ls", kw.get("linestyle")) not in (Const(""), Const("None")):
                seg += list(zip(p, p[1:]))
            else:
                mark += p
        elif m in ("text", "annotate"):
            pos = [numbers(x) for x in args[:2]]
            if all(isinstance(x, float) for x in pos):
                lab.append((tuple(pos), args[2] if len(args) > 2 else kw.get("s")))
    return seg, mark, lab


def reduce(b):
    """shortest basis of a plane lattice"""
    b = sorted([list(x) for x in b], key=lambda x: dot(x, x))
    while True:
        m = round(dot(b[0], b[1]) / dot(b[0], b[0]) - 1e-12)
        b[1] = [x - m * y for x, y in zip(b[1], b[0])]
        if not m or dot(b[1], b[1]) >= dot(b[0], b[0]):
            return sorted(b, key=lambda x: dot(x, x))
        b = b[::-1]


def dual(A):
    d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return [[2 * math.pi * A[1][1] / d, -2 * math.pi * A[1][0] / d], [-2 * math.pi * A[0][1] / d, 2 * math.pi * A[0][0] / d]]


def judge_zone(A, seg):
    B = dual(A)
    R = reduce(B)
    faces, _, corners = wigner_seitz(R)
    scale = math.sqrt(dot(R[1], R[1]))
    feet = []
    for (p, q) in seg:
        d = [q[0] - p[0], q[1] - p[1]]
        l2 = dot(d, d)
        if l2 < 1e-12:
            continue
        t = -dot(p, d) / l2
        feet.append([p[0] + t * d[0], p[1] + t * d[1]])
    for f in feet:
        if coefficients([2 * f[0], 2 * f[1]], B) is None or dot(f, f) < 1e-9 * scale:
            return False, "the line through the foot (%.6g, %.6g) bisects no reciprocal vector" % tuple(f)
    for f in faces:
        if not any(math.dist(f, g) < 1e-6 * scale for g in feet):
            return False, "the side of the zone around (%.6g, %.6g) is not drawn" % tuple(f)
    return True, ""


def judge_marks(A, mark, lab, extra=()):
    B = dual(A)
    have = []
    for p in mark:
        if any(math.dist(p, x) < 1e-6 for x in extra):
            continue
        n = coefficients(list(p), B)
        if n is None:
            return False, "the marked point (%.6g, %.6g) is no reciprocal lattice point" % tuple(p)
        have.append(n)
    if (0, 0) not in have:
        return False, "the origin is not marked"
    for pos, s in lab:
        if isinstance(s, App) and s.op in ("repr", "str", "tostr") and isinstance(s.args[0], Tup):
            t = tuple(x.v for x in s.args[0].items if isinstance(x, Const))
        elif isinstance(s, Const) and isinstance(s.v, str) and s.v.startswith("("):
            t = tuple(int(x) for x in s.v.strip("()").split(","))
        else:
            continue
        want = [t[0] * B[0][k] + t[1] * B[1][k] for k in (0, 1)]
        # labels may stand a little beside their points, nearer to them than to any other point
        d = math.dist(pos, want)
        if d > 0.45 * math.sqrt(dot(reduce(B)[0], reduce(B)[0])):
            return False, "label %s stands at (%.6g, %.6g)" % (t, pos[0], pos[1])
    return True, ""


BASES = [
    ("square", [[1.0, 0.0], [0.0, 1.0]]), ("rectangle", [[1.0, 0.0], [0.0, 2.0]]), ("triangle, 60 degrees", [[1.0, 0.0], [0.5, R3_ / 2]]), ("triangle, 120 degrees", [[1.0, 0.0], [-0.5, R3_ / 2]]),
    ("oblique", [[1.0, 0.2], [0.35, 1.3]]), ("oblique, negative orientation", [[0.35, 1.3], [1.0, 0.2]]), ("centred rectangle", [[1.0, 0.6], [1.0, -0.6]]), ("turned square", [[0.6, 0.8], [-0.8, 0.6]]),
    ("honeycomb", [[0.5, R3_ / 2], [-0.5, R3_ / 2]]), ("kagome, constant 2", [[2.0, 0.0], [1.0, R3_]]), ("long", [[5.0, 0.0], [0.4, 0.7]]), ("skewed", [[1.0, 0.0], [1.2, 1.0]]), ("strongly skewed", [[1.0, 0.0], [3.0, 1.0]]),
]


def check(c):
    c.rule("path", "anchors in order, evenly spaced points between them, min_num on the shortest segment and in proportion on the others, indices of the anchors")
    c.rule("refusal", "too few, coinciding adjacent or wrongly shaped anchors and invalid densities are refused")
    c.rule("zone", "the drawn lines are bisectors of reciprocal vectors and bound exactly the Wigner-Seitz cell")
    c.rule("marks", "marked points are reciprocal lattice points (or the documented special points) under their labels")
    F = c.g(LA, "KPath")
    W = c.where(F)
    for name, pts in PATHS:
        dens = [1, 2, 3, 7, 10, 50] + ([100, 119, 200] if c.thorough else [])
        if name.startswith("rounded"):
            dens += [100, 119, None]
        for n in dens if name != "far apart" else (1, 3):
            for loop in (True, False, None):
                if loop is None and n not in (None, 2):
                    continue
                for form, symbolic, ind in (("list", True, True), ("array", False, None), ("tuple", True, False)):
                    if form != "list" and n not in (1, 3, None) and not c.thorough:
                        continue
                    if name.startswith("rounded") and symbolic and form != "list":
                        continue
                    c.run("path", "%s, min_num %s, loop %s, %s of %s anchors, indices %s" % (name, n or "default", "default" if loop is None else loop, form, "symbolic" if symbolic else "constant", ind),
                          lambda: path(c, F, pts, n, loop, form, symbolic, ind), W)

    for n in sizes(c, (LA,), 4, 300, (60, 130), 6):
        zig = [[0.0, 0.0], [1.0, 0.0], [1.0, 1.5], [0.25, 1.5]]
        c.run("path", "min_num %d, constant anchors" % n, lambda: path(c, F, zig, n, True, "list", False, True), W)
    for k in sizes(c, (LA,), 5, 130, (12, 40), 6):
        way = [[float(i), float(i * i % 3)] for i in range(k)]
        for loop in (True, False):
            c.run("path", "%d anchors, loop %s" % (k, loop), lambda: path(c, F, way, 2, loop, "list", False, True), W)

    def refuse(src, **env):
        st = fresh(c)
        return c.refuses(c.ex(src, st, mod=LA, F=F, **env))
    for src in ("F([np.array([0.0, 0.0])])", "F([])", "F(np.array([[0.0, 0.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0]]))", "F([np.array([0.0]), np.array([1.0])])", "F([np.array([[0.0, 0.0]]), np.array([[1.0, 0.0]])])",
                "F([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num=0)", "F([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num=-3)", "F([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num=2.0)",
                "F([np.array([0.0, 0.0]), np.array([1.0, 0.0])], min_num='2')", "F([np.array([0.0, 0.0]), np.array([0.0, 0.0])], min_num=2)",
                "F([np.array([0.0, 0.0]), np.array([1.0, 0.0]), np.array([1.0, 0.0])], min_num=2, loop=False)", "F([np.array([0.5, 0.0]), np.array([1.0, 0.0]), np.array([0.5, 0.0])], min_num=2, loop=True)",
                "F([np.array([0.5, 0.0, 1.0]), np.array([0.5, 1e-7, 1.0]), np.array([0.5, 2.0, 0.0])], min_num=2, loop=False)"):
        c.run("refusal", src, lambda: refuse(src), W)

    # ------------------------------------------------------------ figures
    Z = c.g(LA, "ShowFirstBZ")
    WZ = c.where(Z)
    for name, A in BASES:
        for scale in (None, 1, 0.5, 3):
            def figure():
                st = fresh(c)
                a = L.new_arr(st, (2, 2), [Const(x) for r in A for x in r], owner="caller", dtype="float64")
                f0 = c.freeze(a, st)
                out = c.ex("Z(a%s)" % ("" if scale is None else ", scale=%r" % scale), st, mod=LA, Z=Z, a=a)
                r, why = c.returns(out)
                if r is not True:
                    raise (Refuted if r is False else Undecided)(why)
                if c.freeze(a, out.st) != f0:
                    raise Refuted("the given vectors are modified")
                return drawn(out.st.effects)

            def zone():
                seg, mark, lab = figure()
                return judge_zone(A, seg)

            def marks():
                seg, mark, lab = figure()
                return judge_marks(A, mark, lab)
            c.run("zone", "%s, scale %s" % (name, scale or "default"), zone, WZ)
            c.run("marks", "%s, scale %s" % (name, scale or "default"), marks, WZ)
    for src in ("Z([[1.0, 0.0], [0.0, 1.0]])", "Z(np.array([1.0, 0.0]))", "Z(np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]))", "Z(np.array([[1.0], [2.0]]))", "Z(np.identity(3))"):
        c.run("refusal", src.replace("Z", "ShowFirstBZ"), lambda: c.refuses(c.ex(src, fresh(c), mod=LA, Z=Z)), WZ)

    # ------------------------------------------------------------ the drawing script
    BZ = TL + ".BrillouinZone"
    m = c.ip.project.modules.get(BZ)
    if m is not None:
        def data(*names):
            c.ip.module(BZ)
            st = c.fresh()
            out = []
            for n in names:
                f = c.freeze(c.g(BZ, n), st)
                if not (isinstance(f, App) and f.op == "arr") or not all(isinstance(x, Const) for x in f.args[1].items):
                    raise Undecided("%s is not a constant array" % n)
                sh = [x.v for x in f.args[0].items]
                v = [float(x.v) for x in f.args[1].items]
                out.append([v[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])] if len(sh) == 2 else v)
            return out

        def where(n):
            return "%s:%d %s" % (m.rel, line_of(m, n), n)

        def vec():
            A, B = data("As", "Bs")
            for i in (0, 1):
                for j in (0, 1):
                    if abs(dot(A[i], B[j]) - (2 * math.pi if i == j else 0)) > 1e-9:
                        return False, "a%d . b%d = %.6g" % (i, j, dot(A[i], B[j]))
            return True, ""
        c.run("marks", "script: reciprocal vectors", vec, where("Bs"))

        def special(n):
            A, P = data("As", n)
            faces, _, corners = wigner_seitz(reduce(dual(A)))
            return same_set(P, faces if n == "Ms" else corners)
        c.run("marks", "script: edge middle points", lambda: special("Ms"), where("Ms"))
        c.run("marks", "script: corners", lambda: special("Ks"), where("Ks"))
        c.run("marks", "script: centre", lambda: (near(data("Gamma")[0], [0.0, 0.0]), "Gamma is not the origin"), where("Gamma"))

        def script():
            A, = data("As")
            if any(e[0] == BZ for e in c.ip.module_errors):
                raise Undecided("the script may raise")
            return (A,) + drawn(c.ip.module_effects.get(BZ, ()))
        c.run("zone", "script", lambda: (lambda s: judge_zone(s[0], s[1]))(script()), where("fig"))

        def smarks():
            A, seg, mark, lab = script()
            K, M = data("Ks", "Ms")
            for p in K + M:
                if not any(math.dist(p, q) < 1e-9 for q in mark):
                    return False, "the special point (%.6g, %.6g) is not marked" % tuple(p)
            for pos, s in lab:
                if isinstance(s, Const) and isinstance(s.v, str):
                    pts = {"M": M, "K": K, "Gamma": [[0.0, 0.0]]}
                    names = [k for k in pts if k in s.v]
                    if len(names) == 1 and min(math.dist(pos, p) for p in pts[names[0]]) > min([math.dist(pos, p) for k in pts if k != names[0] for p in pts[k]]):
                        return False, "the label %s stands at (%.6g, %.6g), nearer to another special point" % (s.v, pos[0], pos[1])
            return judge_marks(A, mark, lab, K + M)
        c.run("marks", "script", smarks, where("fig"))
    return c.finish(EXPL, floor=150)
