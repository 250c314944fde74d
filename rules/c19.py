"""C19: lattice database."""
import itertools
import math

from .common import *
from .c16 import fresh

EXPL = ("Constant folding of every published table of the lattice database (points, translation vectors, reciprocal vectors, zone centres, high-symmetry points) and of the generators for every documented name, alias and "
        "repetition numbers up to the stated bounds; the folded values are compared with the geometry of the named lattice (tiling, distances, coordination), with the duality relation and with the faces, edges and corners of the "
        "Wigner-Seitz cell of the reciprocal lattice. Duality of Lattice.bs is established for symbolic translation vectors in one and two dimensions.")

TOL = 1e-8
R3_ = math.sqrt(3)
#        base lattice: [(distance, number of neighbours)], sites per cell area
GEOM = {
    "CHAIN": (1, [(1.0, 2), (2.0, 2), (3.0, 2)], 1.0),
    "SQUARE": (2, [(1.0, 4), (math.sqrt(2), 4), (2.0, 4), (math.sqrt(5), 8)], 1.0),
    "TRIANGLE": (2, [(1.0, 6), (R3_, 6), (2.0, 6), (math.sqrt(7), 12)], 2 / R3_),
    "HONEYCOMB": (2, [(1 / R3_, 3), (1.0, 6), (2 / R3_, 3), (math.sqrt(7 / 3), 6)], 4 / R3_),
    "KAGOME": (2, [(0.5, 4), (R3_ / 2, 4), (1.0, 6)], 6 / R3_),
    "CUBIC": (3, [(1.0, 6), (math.sqrt(2), 12), (R3_, 8), (2.0, 6)], 1.0),
}
SIZES = {"CHAIN_CELL": 1, "SQUARE_CELL": 1, "TRIANGLE_CELL": 1, "HONEYCOMB_CELL": 2, "KAGOME_CELL": 3, "CUBIC_CELL": 1, "SQUARE_CROSS": 12, "SQUARE_Z": 10, "SQUARE_S": 10, "TRIANGLE_STAR": 13,
         "HONEYCOMB_BENZENE": 6, "HONEYCOMB_DIPHENYL": 10, "HONEYCOMB_GEAR": 24}
POINTSETS = {"CHAIN_CELL": {"ES": "faces"}, "SQUARE_CELL": {"XS": "faces", "MS": "corners"}, "TRIANGLE_CELL": {"MS": "faces", "KS": "corners"}, "HONEYCOMB_CELL": {"MS": "faces", "KS": "corners"},
             "KAGOME_CELL": {"MS": "faces", "KS": "corners"}, "CUBIC_CELL": {"XS": "faces", "MS": "edges", "KS": "corners"}, "SQUARE_CROSS": {}, "SQUARE_Z": {"XS": "faces", "MS": "corners"},
             "SQUARE_S": {"XS": "faces", "MS": "corners"}, "TRIANGLE_STAR": {"MS": "faces", "KS": "corners"}, "HONEYCOMB_BENZENE": {"MS": "faces", "KS": "corners"}, "HONEYCOMB_DIPHENYL": {},
             "HONEYCOMB_GEAR": {"MS": "faces", "KS": "corners"}}
ALIASES = {"SQUARE_CROSS": ["square_cross", "square_12", "cross"], "SQUARE_Z": ["square_z", "z"], "SQUARE_S": ["square_s", "s"], "TRIANGLE_STAR": ["triangle_star", "triangle_13", "star", "SD"],
           "HONEYCOMB_BENZENE": ["honeycomb_benzene", "honeycomb_6", "benzene"], "HONEYCOMB_DIPHENYL": ["honeycomb_diphenyl", "honeycomb_10", "diphenyl"],
           "HONEYCOMB_GEAR": ["honeycomb_gear", "honeycomb_24", "gear"]}
CLUSTER_SHAPES = {"SQUARE_CROSS": 16, "SQUARE_Z": None, "SQUARE_S": None}


def matrix(c, v, st):
    """list of rows of floats of a fully folded 2-D (or 1-D: single row) array, None if not folded"""
    f = c.freeze(v, st)
    if not (isinstance(f, App) and f.op == "arr"):
        return None
    shape = [x.v for x in f.args[0].items]
    e = [x.v if isinstance(x, Const) else None for x in f.args[1].items]
    if any(x is None or isinstance(x, complex) for x in e):
        return None
    if len(shape) == 1:
        return [e]
    if len(shape) != 2:
        return None
    return [e[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n))


def solve(M, b):
    """x with M x = b (Cramer)"""
    d = det(M)
    return [det([[b[i] if k == j else M[i][k] for k in range(len(M))] for i in range(len(M))]) / d for j in range(len(M))]


def near(a, b):
    return all(abs(x - y) < 1e-7 for x, y in zip(a, b))


def frac(v, AS):
    """coefficients of v with respect to the rows of AS"""
    n = len(AS)
    return solve([[AS[j][i] for j in range(n)] for i in range(n)], v)


def is_translation(v, AS):
    return all(abs(x - round(x)) < 1e-6 for x in frac(v, AS))


def lattice_vectors(AS, n):
    for co in itertools.product(range(-n, n + 1), repeat=len(AS)):
        yield co, [sum(k * a[i] for k, a in zip(co, AS)) for i in range(len(AS[0]))]


def scope_for(AS, r):
    """number of cells in each direction that surely contains every vector of length r"""
    d = abs(det(AS))
    n = len(AS)
    if n == 1:
        return int(r / d) + 1
    best = 0
    for i in range(n):
        # height of the cell over the face spanned by the other vectors
        others = [AS[j] for j in range(n) if j != i]
        if n == 2:
            area = math.sqrt(dot(others[0], others[0]))
        else:
            u, w = others
            cr = [u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]]
            area = math.sqrt(dot(cr, cr))
        best = max(best, int(r / (d / area)) + 1)
    return best


def wigner_seitz(BS):
    """(face centres, edge middle points, corners) of the Wigner-Seitz cell of the lattice spanned by the rows of BS"""
    n = len(BS)
    L = max(math.sqrt(dot(b, b)) for b in BS)
    N = min(scope_for(BS, 2.2 * L), 4)
    G = [g for co, g in lattice_vectors(BS, N) if any(co)]
    faces = []
    for g in G:
        h = [x / 2 for x in g]
        r = dot(h, h)
        if all(o == g or dot([a - b for a, b in zip(h, o)], [a - b for a, b in zip(h, o)]) > r * (1 + 1e-7) for o in G):
            faces.append(g)
    corners = []
    for gs in itertools.combinations(faces, n):
        if abs(det([list(g) for g in gs])) < 1e-7:
            continue
        k = solve([list(g) for g in gs], [dot(g, g) / 2 for g in gs])
        if all(dot(k, g) <= dot(g, g) / 2 * (1 + 1e-7) for g in faces) and not any(near(k, q) for q in corners):
            corners.append(k)
    edges = []
    if n == 3:
        act = [frozenset(i for i, g in enumerate(faces) if abs(dot(k, g) - dot(g, g) / 2) < 1e-6) for k in corners]
        for i, j in itertools.combinations(range(len(corners)), 2):
            common = act[i] & act[j]
            if len(common) >= 2 and not any(common <= act[k] for k in range(len(corners)) if k not in (i, j)):
                edges.append([(a + b) / 2 for a, b in zip(corners[i], corners[j])])
    return [[x / 2 for x in g] for g in faces], edges, corners


def same_set(got, want):
    if len(got) != len(want):
        return False, "%d points instead of %d" % (len(got), len(want))
    for w in want:
        if sum(near(g, w) for g in got) != 1:
            return False, "the point (%s) is missing" % ", ".join("%.6g" % x for x in w)
    return True, ""


def check(c):
    c.rule("vectors", "translation vectors are linearly independent and the reciprocal vectors are 2 pi dual to them")
    c.rule("points", "points are distinct modulo translations, of the right number and dimension, and tile the plane: cell area times site density equals the number of points")
    c.rule("geometry", "distances and numbers of neighbours of every point in the tiled lattice are those of the named lattice")
    c.rule("connected", "the cluster is connected through nearest-neighbour bonds")
    c.rule("momenta", "zone centre, and the documented faces, edges and corners of the first Brillouin zone")
    c.rule("names", "every documented name and alias selects the lattice it names")
    c.rule("generator", "n0 x n1 x n2 cells: exactly the repeated points, scaled translation vectors")
    c.rule("dual", "Lattice.bs is dual to symbolic translation vectors and lies in their span")
    mod = c.ip.project.modules[DB]
    from .c20 import line_of

    def loc(name):
        return "%s:%d %s" % (mod.rel, line_of(mod, name), name)

    def table(name):
        st = fresh(c)
        v = matrix(c, c.g(DB, name), st)
        if v is None:
            raise Undecided("%s is not a folded matrix" % name)
        return v

    for cell, size in SIZES.items():
        base = cell.split("_")[0]
        dim, shells, density = GEOM[base]

        def vectors():
            A, B = table(cell + "_AS"), table(cell + "_BS")
            if any(len(r) != dim for r in A + B) or len(A) != dim or len(B) != dim:
                return False, "shapes"
            if abs(det(A)) < 1e-6:
                return False, "linearly dependent translation vectors"
            for i in range(dim):
                for j in range(dim):
                    want = 2 * math.pi if i == j else 0.0
                    if abs(dot(A[i], B[j]) - want) > TOL:
                        return False, "a%d . b%d = %.9g" % (i, j, dot(A[i], B[j]))
            return True
        c.run("vectors", cell, vectors, loc(cell + "_BS"))

        def points():
            A, P = table(cell + "_AS"), table(cell + "_POINTS")
            if any(len(r) != dim for r in P):
                return False, "points of wrong dimension"
            if len(P) != size:
                return False, "%d points instead of %d" % (len(P), size)
            for i, j in itertools.combinations(range(len(P)), 2):
                if is_translation([a - b for a, b in zip(P[i], P[j])], A):
                    return False, "points %d and %d coincide modulo translations" % (i, j)
            n = abs(det(A)) * density
            return abs(n - len(P)) < 1e-6, "cell area %.6g holds %.6g sites of the %s lattice, table lists %d" % (abs(det(A)), n, base.lower(), len(P))
        c.run("points", cell, points, loc(cell + "_POINTS"))

        def geometry():
            A, P = table(cell + "_AS"), table(cell + "_POINTS")
            R = shells[-1][0]
            spread = max(math.sqrt(dot(d, d)) for d in ([a - b for a, b in zip(p, q)] for p in P for q in P))
            N = scope_for(A, R + spread)
            T = list(lattice_vectors(A, N))
            for i, p in enumerate(P):
                ds = []
                for q in P:
                    for co, t in T:
                        d = math.sqrt(sum((a + b - x) ** 2 for a, b, x in zip(q, t, p)))
                        if 1e-6 < d < R + 1e-6:
                            ds.append(d)
                for r, k in shells:
                    m = sum(abs(d - r) < 1e-6 for d in ds)
                    if m != k:
                        return False, "point %d has %d neighbours at distance %.6g instead of %d" % (i, m, r, k)
                if len(ds) != sum(k for _, k in shells):
                    return False, "point %d has neighbours at unexpected distances" % i
            return True
        c.run("geometry", cell, geometry, loc(cell + "_POINTS"))

        def connected():
            P = table(cell + "_POINTS")
            seen, todo = {0}, [0]
            while todo:
                i = todo.pop()
                for j in range(len(P)):
                    if j not in seen and abs(math.sqrt(dot([a - b for a, b in zip(P[i], P[j])], [a - b for a, b in zip(P[i], P[j])])) - shells[0][0]) < 1e-6:
                        seen.add(j)
                        todo.append(j)
            return len(seen) == len(P), "points %s are not connected to point 0 inside the cluster" % sorted(set(range(len(P))) - seen)
        c.run("connected", cell, connected, loc(cell + "_POINTS"))

        def gamma():
            g = table(cell + "_GAMMA")
            return len(g) == 1 and len(g[0]) == dim and all(abs(x) < TOL for x in g[0]), "not the zone centre"
        c.run("momenta", cell + "_GAMMA", gamma, loc(cell + "_GAMMA"))
        for suffix, what in POINTSETS[cell].items():
            def pts():
                K = table("%s_%s" % (cell, suffix))
                faces, edges, corners = wigner_seitz(table(cell + "_BS"))
                return same_set(K, {"faces": faces, "edges": edges, "corners": corners}[what])
            c.run("momenta", "%s_%s: %s of the first Brillouin zone" % (cell, suffix, {"faces": "middle points of the faces", "edges": "middle points of the edges", "corners": "corners"}[what]), pts,
                  loc("%s_%s" % (cell, suffix)))

    # ------------------------------------------------------------ generators
    sc = c.g(DB, "special_cluster")
    lg = c.g(DB, "lattice_generator")

    def lattice(src, **env):
        st = fresh(c)
        v = c.do(src, st, mod=DB, **env)
        if is_instance(c, st, v, LA, "Lattice") is not True:
            raise Refuted("not a Lattice")
        P = matrix(c, c.do("v.points", st, mod=DB, v=v), st)
        A = matrix(c, c.do("v.vectors", st, mod=DB, v=v), st)
        B = matrix(c, c.do("v.bs", st, mod=DB, v=v), st)
        n = c.do("v.point_num", st, mod=DB, v=v)
        if P is None or A is None or B is None or not isinstance(n, Const):
            raise Undecided("lattice not folded")
        if n.v != len(P):
            raise Refuted("point_num is %r for %d points" % (n.v, len(P)))
        return P, A, B

    def dual(A, B):
        return len(A) == len(B) and all(abs(dot(a, b) - (2 * math.pi if i == j else 0)) < 1e-7 for i, a in enumerate(A) for j, b in enumerate(B))

    def rows_equal(X, Y):
        return len(X) == len(Y) and all(len(x) == len(y) and near(x, y) for x, y in zip(X, Y))

    for cell, names in ALIASES.items():
        for nm in names:
            def fn():
                P, A, B = lattice("f(w)", f=sc, w=Const(nm))
                if not rows_equal(A, table(cell + "_AS")):
                    return False, "its vectors are not %s_AS" % cell
                if not dual(A, B):
                    return False, "bs is not dual to vectors"
                return same_set(P, table(cell + "_POINTS"))
            c.run("names", "special_cluster(%r)" % nm, fn, c.where(sc))
    for nm in ("CROSS", "triangle", "", "honeycomb_12", "sd", "square", "kagome"):
        c.run("names", "special_cluster(%r) is refused" % nm, lambda: c.refuses(c.ex("f(w)", fresh(c), mod=DB, f=sc, w=Const(nm)), ["KeyError"]), c.where(sc))
    for nm in ("Chain", "cross", "", "triangular", "cube", "star"):
        for kw in ("", ", 2, 2"):
            c.run("names", "lattice_generator(%r%s) is refused" % (nm, kw), lambda: c.refuses(c.ex("f(w%s)" % kw, fresh(c), mod=DB, f=lg, w=Const(nm)), ["KeyError"]), c.where(lg))
    top = 4 if c.thorough else 3
    for base, (dim, shells, density) in GEOM.items():
        nums = list(itertools.product(range(1, top + 1), repeat=dim))
        if dim == 1:
            nums += [(7,), (10,), (16,)]
        if dim == 2:
            nums += [(1, 6), (5, 1), (4, 2), (5, 3)]
        if dim == 3:
            nums = [n for n in nums if n[0] * n[1] * n[2] <= (36 if c.thorough else 18)] + [(5, 1, 1), (1, 5, 1), (1, 1, 5)]
        for ns in nums:
            forms = ["f(w, %s)" % ", ".join(map(str, ns))]
            if ns in ((2, 3), (2,), (2, 1, 3), (1, 2)):
                forms += ["f(w, %s)" % ", ".join("num%d=%d" % (i, n) for i, n in enumerate(ns)), "f(which=w, %s)" % ", ".join("num%d=%d" % (i, n) for i, n in reversed(list(enumerate(ns))))]
            if dim == 1 and ns[0] < 3:
                forms += ["f(w, %d, 3)" % ns[0], "f(w, %d, 2, 3)" % ns[0]]
            if dim == 2 and max(ns) < 3:
                forms += ["f(w, %d, %d, 3)" % ns]
            if all(n == 1 for n in ns):
                forms += ["f(w)"]
            for form in forms:
                def fn():
                    P, A, B = lattice(form, f=lg, w=Const(base.lower()))
                    A0, P0 = table(base + "_CELL_AS"), table(base + "_CELL_POINTS")
                    if not rows_equal(A, [[n * x for x in a] for n, a in zip(ns, A0)]):
                        return False, "translation vectors are not those of the cell times %s" % (ns,)
                    if not dual(A, B):
                        return False, "bs is not dual to vectors"
                    want = [[p[i] + sum(k * a[i] for k, a in zip(co, A0)) for i in range(dim)] for co in itertools.product(*map(range, ns)) for p in P0]
                    return same_set(P, want)
                c.run("generator", form.replace("(w", "(%r" % base.lower()).replace("=w", "=%r" % base.lower()).replace("f(", "lattice_generator(", 1), fn, c.where(lg))
    for args in ("0", "-1", "1, 0", "1, -2", "2, 2, 0", "1.0", "2.0, 2", "2, 2.5", "'2'", "None", "1, None", "1, 1, 1.0"):
        for w in ("chain", "square", "cubic"):
            c.run("generator", "lattice_generator(%r, %s) is refused" % (w, args), lambda: c.refuses(c.ex("f(w, %s)" % args, fresh(c), mod=DB, f=lg, w=Const(w))), c.where(lg))

    # ------------------------------------------------------------ symbolic vectors
    Lat = c.g(LA, "Lattice")
    a, b, d, e = (Sym("a%d%d" % (i, j), "float") for i in range(2) for j in range(2))
    cases = [("one vector in 1-D", "np.array([[a]])", "np.array([[p]])", [[a]]), ("one vector in 2-D", "np.array([[a, b]])", "np.array([[p, q]])", [[a, b]]),
             ("two vectors in 2-D", "np.array([[a, b], [d, e]])", "np.array([[p, q]])", [[a, b], [d, e]])]
    for title, vs, ps, A in cases:
        def fn():
            from .c20 import rational_eq
            st = fresh(c)
            out = c.ex("L(%s, %s)" % (ps, vs), st, mod=LA, L=Lat, a=a, b=b, d=d, e=e, p=Sym("p", "float"), q=Sym("q", "float"))
            if out.value is None:
                raise Undecided("construction")
            B = c.freeze(c.do("v.bs", out.st, mod=LA, v=out.value), out.st)
            if not (isinstance(B, App) and B.op == "arr"):
                return None, "bs"
            k = len(A[0])
            E = list(B.args[1].items)
            rows = [E[i * k:(i + 1) * k] for i in range(len(A))]
            vs_ = []
            for i, r in enumerate(rows):
                for j, s in enumerate(A):
                    v = Const(0)
                    for x, y in zip(r, s):
                        v = add(v, mul(x, y))
                    w = Const(2 * math.pi if i == j else 0.0)
                    t = c.num_eq(v, w, out.st)
                    if t is None:
                        t = rational_eq(c, v, w, None, out.st)
                    if t is False:
                        return False, "b%d . a%d is not %s %s" % (i, j, "2 pi" if i == j else "0", c.last)
                    vs_.append(t)
            if len(A) == 1 and k == 2:
                v = sub(mul(rows[0][0], b), mul(rows[0][1], a))
                t = c.num_eq(v, Const(0.0), out.st)
                if t is None:
                    t = rational_eq(c, v, Const(0.0), None, out.st)
                if t is False:
                    return False, "bs is not along the translation vector"
                vs_.append(t)
            return All(vs_), "not comparable"
        c.run("dual", title, fn, c.where(Lat))
    return c.finish(EXPL, floor=150)
