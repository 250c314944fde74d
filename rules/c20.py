"""C20: rotation matrices."""
import math

from .common import *

EXPL = ("Constant folding of every published matrix (compared with Rodrigues' formula for the named axis and angle; orthogonality and determinant), and abstract evaluation of the rotation functions for a symbolic angle, in both units, "
        "with and without inversion; for the general axis with symbolic polar angles and with symbolic angle about a family of axis vectors in every octant, plane and coordinate direction (given as tuple, list or array, of any length); "
        "entries are compared in normal form over sin and cos of the angles. Wrong axes are refused on every path.")

R3M = R3


def mats(n, ct, st):
    """Rodrigues' matrix for unit vector n (numbers or values), cos and sin values"""
    M = []
    eps = {(0, 1): (2, -1), (1, 0): (2, 1), (0, 2): (1, 1), (2, 0): (1, -1), (1, 2): (0, -1), (2, 1): (0, 1)}
    for i in range(3):
        for j in range(3):
            v = mul(mul(n[i], n[j]), sub(Const(1), ct))
            if i == j:
                v = add(v, ct)
            else:
                k, s = eps[i, j]
                v = add(v, mul(mul(Const(s), n[k]), st))
            M.append(v)
    return M


def prod(A, B):
    return [c_sum3([mul(A[3 * i + k], B[3 * k + j]) for k in range(3)]) for i in range(3) for j in range(3)]


def c_sum3(xs):
    s = Const(0)
    for x in xs:
        s = add(s, x)
    return s


def entries(c, v, st):
    f = c.freeze(v, st)
    if isinstance(f, App) and f.op == "arr":
        if [x.v for x in f.args[0].items] != [3, 3]:
            return False
        return list(f.args[1].items)
    return None


def close(a, b):
    return abs(a - b) < 1e-12


def check(c):
    c.rule("constants", "each named matrix is the rotation by the named angle about the named axis (inversion: -1; anti-cyclic permutations swap two axes)")
    c.rule("functions", "right-handed rotation about the axis for every angle in the chosen unit; inversion multiplies by -1")
    c.rule("euler", "RotationEuler is Rz(alpha) Ry(beta) Rz(gamma)")
    c.rule("general-axis", "rotation about the axis given by polar angles or by a vector of any length")
    c.rule("refusal", "axes that are zero vectors, of wrong length or wrong type are refused")
    names = {"X": (1.0, 0.0, 0.0), "Y": (0.0, 1.0, 0.0), "Z": (0.0, 0.0, 1.0)}

    def const(name, want, det):
        def fn():
            st = fresh_default(c)
            e = entries(c, c.g(R3M, name), st)
            if not e:
                return e, "not a 3x3 array"
            if not all(isinstance(x, Const) for x in e):
                return None, "entries not folded"
            x = [y.v for y in e]
            for i in range(9):
                if not close(x[i], want[i]):
                    return False, "entry (%d, %d) is %.12g instead of %.12g" % (i // 3, i % 3, x[i], want[i])
            for i in range(3):
                for j in range(3):
                    if not close(sum(x[3 * i + k] * x[3 * j + k] for k in range(3)), 1.0 if i == j else 0.0):
                        return False, "not orthogonal"
            d = x[0] * (x[4] * x[8] - x[5] * x[7]) - x[1] * (x[3] * x[8] - x[5] * x[6]) + x[2] * (x[3] * x[7] - x[4] * x[6])
            return close(d, det), "determinant %.6g" % d
        m = c.ip.project.modules.get(R3M)
        c.run("constants", name, fn, "%s:%d %s" % (m.rel if m else R3M, line_of(m, name), name))

    const("E", [1.0, 0, 0, 0, 1, 0, 0, 0, 1], 1)
    const("INVERSION", [-1.0, 0, 0, 0, -1, 0, 0, 0, -1], -1)
    const("AP0", [1, 0, 0, 0, 0, 1, 0, 1, 0], -1)
    const("AP1", [0, 0, 1, 0, 1, 0, 1, 0, 0], -1)
    const("AP2", [0, 1, 0, 1, 0, 0, 0, 0, 1], -1)
    for ax, n in names.items():
        for deg in (30, 45, 60, 90, 180, 270):
            t = math.radians(deg)
            const("R%s%d" % (ax, deg), [x.v for x in mats([Const(k) for k in n], Const(math.cos(t)), Const(math.sin(t)))], 1)
    q = 1 / math.sqrt(3)
    for deg in (60, 120, 180, 240, 300):
        t = math.radians(deg)
        const("R111_%d" % deg, [x.v for x in mats([Const(q)] * 3, Const(math.cos(t)), Const(math.sin(t)))], 1)

    # ------------------------------------------------------------ functions
    theta, alpha, beta, gamma = (Sym(n, "float") for n in ("theta", "alpha", "beta", "gamma"))
    SPECIALS = [0, 1, -1, 30, 45, 60, 90, 120, 180, 270, 360, -90, 450, 0.5, 2.25]

    def rad(a, deg):
        return mul(a, Const(math.pi / 180)) if deg else a

    def cs(a, deg):
        r = rad(a, deg)
        return func1("cos", r), func1("sin", r)

    def compare(st, v, want, pre=None):
        e = entries(c, v, st)
        if e is False:
            return False, "not a 3x3 matrix"
        if e is None:
            return None, show(c.freeze(v, st))[:100]
        vs = []
        for i, (x, w) in enumerate(zip(e, want)):
            r = c.num_eq(x, w, st, pre)
            if r is False:
                return False, "entry (%d, %d) is %s, expected %s %s" % (i // 3, i % 3, show(x)[:80], show(w)[:80], c.last)
            vs.append(r)
        return All(vs), "entries not comparable"

    modes = [("", False, False), ("deg=True", True, False), ("inversion=True", False, True), ("deg=True, inversion=True", True, True), ("deg=False, inversion=False", False, False)]
    for ax, n in names.items():
        F = c.g(R3M, "Rotation" + ax)
        for kw, deg, inv_ in modes:
            for ang in [theta] + [Const(x) for x in (SPECIALS if deg or c.thorough else SPECIALS[:4])] + [Sym("t", "int")]:
                def fn():
                    st = fresh_default(c)
                    v = c.do("F(t%s)" % (", " + kw if kw else ""), st, mod=R3M, F=F, t=ang)
                    want = mats([Const(k) for k in n], *cs(ang, deg))
                    return compare(st, v, [neg(w) for w in want] if inv_ else want)
                c.run("functions", "Rotation%s(%s) %s" % (ax, show(ang), kw), fn, c.where(F))
    Z = [Const(k) for k in names["Z"]]
    Y = [Const(k) for k in names["Y"]]
    F = c.g(R3M, "RotationEuler")
    for kw, deg, inv_ in modes:
        for args in [(alpha, beta, gamma), (alpha, Const(0.0), gamma), (Const(0.0), beta, Const(0.0)), (alpha, Const(90.0), gamma), (Const(30.0), Const(45.0), Const(60.0)), (Const(0), Const(0), gamma), (Const(1), Const(2), Const(3)),
                     (Const(-30), Const(200), Const(-75)), (Const(400.0), Const(-90.0), Const(-0.5)), (Const(0), Const(0), Const(-30)), (Const(0), Const(-20), Const(0)), (Const(-5.5), Const(0), Const(0)), (Const(270), Const(180), Const(725))]:
            def fn():
                st = fresh_default(c)
                v = c.do("F(a, b, g%s)" % (", " + kw if kw else ""), st, mod=R3M, F=F, a=args[0], b=args[1], g=args[2])
                want = prod(prod(mats(Z, *cs(args[0], deg)), mats(Y, *cs(args[1], deg))), mats(Z, *cs(args[2], deg)))
                return compare(st, v, [neg(w) for w in want] if inv_ else want)
            c.run("euler", "RotationEuler(%s) %s" % (", ".join(show(a) for a in args), kw), fn, c.where(F))
    # ------------------------------------------------------------ general axis
    F = c.g(R3M, "RotationGeneral")
    for kw, deg, inv_ in modes:
        for args in [(alpha, beta, theta), (alpha, Const(0.0), theta), (Const(0.0), Const(0.0), theta), (alpha, beta, Const(0.0)), (Const(30.0), beta, theta), (Const(40.0), Const(70.0), Const(20.0)), (Const(40.0), Const(130.0), theta), (Const(-40), Const(130), Const(-20)), (Const(400), Const(-70), Const(500)), (Const(-0.5), Const(0.0), Const(-2.5))]:
            for form in ("(a, b)", "[a, b]", "np.array([a, b])"):
                def fn():
                    st = fresh_default(c)
                    v = c.do("F(%s, t%s)" % (form, ", " + kw if kw else ""), st, mod=R3M, F=F, a=args[0], b=args[1], t=args[2])
                    ca, sa = cs(args[0], deg)
                    cb, sb = cs(args[1], deg)
                    want = mats([mul(sb, ca), mul(sb, sa), cb], *cs(args[2], deg))
                    return compare(st, v, [neg(w) for w in want] if inv_ else want)
                c.run("general-axis", "RotationGeneral(%s of %s, %s) %s" % (form, show(args[0]), ", ".join(show(a) for a in args[1:]), kw), fn, c.where(F))
    axes = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (-1, 1, 0), (1, -1, 0), (-1, -1, 0), (1, 0, 1), (-1, 0, 1), (1, 0, -1), (0, 1, 1), (0, -1, 1), (0, 1, -1),
            (1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1), (-1, -1, -1), (3, 4, 12), (0.5, -2.5, 0.125), (0, 0, 7), (0, 0, -0.5), (0, 3, 0), (20, 0, 0), (-2, 3, -6),
            (1e-3, 0, 0), (0, 1e-4, 1), (0, -3e-5, 1), (-2e-6, 1e-6, -0.5), (3e-9, -3e-9, 0), (300, -400, 1200)]
    for a in axes:
        L = math.sqrt(sum(x * x for x in a))
        n = [Const(x / L) for x in a]
        for kw, deg, inv_ in (modes if c.thorough else modes[:1] + modes[3:4]):
            for form in (("(x, y, z)", "[x, y, z]", "np.array([x, y, z])") if c.thorough or sum(map(abs, a)) < 2 else ("(x, y, z)", "np.array([x, y, z])")):
                def fn():
                    st = fresh_default(c)
                    v = c.do("F(%s, t%s)" % (form, ", " + kw if kw else ""), st, mod=R3M, F=F, x=Const(a[0]), y=Const(a[1]), z=Const(a[2]), t=theta)
                    want = mats(n, *cs(theta, deg))
                    return compare(st, v, [neg(w) for w in want] if inv_ else want)
                c.run("general-axis", "RotationGeneral(%s of %s, any angle) %s" % (form, a, kw), fn, c.where(F))
    # symbolic axes along coordinate directions and planes
    x, y, z = (Sym(s, "float") for s in "xyz")
    O = Const(0.0)
    for a, sgn in (((O, O, z), 1), ((O, O, z), -1)):
        def fz():
            st = fresh_default(c)
            st.assume(cmp_num("gt", z if sgn > 0 else neg(z), Const(1e-3)), True)
            st.assume(cmp_num("gt", z if sgn > 0 else neg(z), Const(0)), True)
            A = func1("sqrt", mul(z, z))
            st.assume(cmp_num("gt", A, c_setting(c)), True)
            v = c.do("F((0.0, 0.0, z), t)", st, mod=R3M, F=F, z=z, t=theta)
            v = subst(c.freeze(v, st), {A: z if sgn > 0 else neg(z)})
            return compare(st, v, mats([O, O, Const(float(sgn))], *cs(theta, False)))
        c.run("general-axis", "every axis along %sz" % "+-"[sgn < 0], fz, c.where(F))

    def anyaxis():
        st = fresh_default(c)
        L = func1("sqrt", add(add(mul(x, x), mul(y, y)), mul(z, z)))
        D = func1("sqrt", add(mul(x, x), mul(y, y)))
        for v in (L, D):
            st.assume(cmp_num("gt", v, Const(1e-10)), True)
            st.assume(cmp_num("gt", v, c_setting(c)), True)
        v = c.do("F((x, y, z), t)", st, mod=R3M, F=F, x=x, y=y, z=z, t=theta)
        e = entries(c, v, st)
        if not e:
            return e, show(c.freeze(v, st))[:80]
        want = mats([div(x, L), div(y, L), div(z, L)], *cs(theta, False))
        vs = []
        for i, (g, w) in enumerate(zip(e, want)):
            r = c.num_eq(g, w, st)
            if r is None:
                r = rational_eq(c, g, w, (x, y, z), st)
            if r is False:
                return False, "entry (%d, %d) differs from Rodrigues' formula %s" % (i // 3, i % 3, c.last)
            vs.append(r)
        return All(vs), "entries not comparable"
    c.run("general-axis", "every axis off the z direction, every angle", anyaxis, c.where(F))
    # ------------------------------------------------------------ refusals
    for src in ("(0, 0, 0)", "[0.0, 0.0, 0.0]", "np.zeros(3)", "(1e-12, 0, 0)", "(1,)", "(1, 2, 3, 4)", "()", "[]", "np.array([1.0])", "np.array([1.0, 0, 0, 0])", "1", "None", "'xyz'", "'xy'", "{1, 2, 3}", "{0: 1, 1: 2, 2: 3}", "2.0"):
        for kw in ("", ", deg=True, inversion=True"):
            c.run("refusal", "RotationGeneral(%s%s)" % (src, kw), lambda: c.refuses(c.ex("F(%s, t%s)" % (src, kw), fresh_default(c), mod=R3M, F=F, t=theta)), c.where(F))
    return c.finish(EXPL, floor=250)


def fresh_default(c):
    from .c16 import fresh
    return fresh(c)


def c_setting(c):
    return Const(1e-10)


def line_of(m, name):
    import ast
    for s in m.tree.body if m else ():
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            return s.lineno
    return 1


def rational_eq(c, g, w, xyz, st):
    """equality of rational expressions: over the common denominator of all negative powers, expanded, the numerator is zero"""
    d = sub(g, w)
    for _ in range(6):
        t = terms(d)
        if all(abs(k) < 1e-9 for k in t.values()):
            return True
        low = {}
        for m in t:
            for a, n in m:
                if n < 0:
                    low[a] = min(low.get(a, 0), n)
        if not low:
            return None
        e = Const(0)
        for m, k in t.items():
            v = Const(k)
            for a in low:
                n = dict(m).get(a, 0) - low[a]
                base = a.args[0] if isinstance(a, App) and a.op == "paren" else a
                for _ in range(n):
                    v = mul(v, base)
            for a, n in m:
                if a not in low:
                    v = mul(v, power(a, Const(n)))
            e = add(e, v)
        d = e
    return None
