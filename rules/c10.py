"""C10: spin matrices and their tensor slots."""
from .common import *

EXPL = ("The published constant matrices are folded from the source and compared entry by entry with the spin-1/2 algebra. matrix_function / matrix_repr of spin operators and spin terms are "
        "evaluated abstractly with a symbolic coefficient for every operator type, every slot and every arrangement of 1 to 4 operators on up to 4 sites (5 in the thorough tier); "
        "both algorithms (two-operator shortcut and general product) are compared with the same definition: coefficient times the product, in the given order, of the one-site matrices in their tensor slot, site 0 least significant.")

H = 0.5
MAT = {"x": ((0, H), (H, 0)), "y": ((0, -H * 1j), (H * 1j, 0)), "z": ((H, 0), (0, -H)), "p": ((0, 1), (0, 0)), "m": ((0, 0), (1, 0))}


def mkron(a, b):
    n, m = len(a), len(b)
    return tuple(tuple(a[i // m][j // m] * b[i % m][j % m] for j in range(n * m)) for i in range(n * m))


def eye(n):
    return tuple(tuple(1 if i == j else 0 for j in range(n)) for i in range(n))


def mmul(a, b):
    n = len(a)
    cols = list(zip(*b))
    return tuple(tuple(sum(x * y for x, y in zip(r, k) if x and y) for k in cols) for r in a)


def slot(i, t, n):
    return mkron(eye(2 ** (n - i - 1)), mkron(MAT[t], eye(2 ** i)))


def spec(ops, n):
    r = eye(2 ** n)
    for i, t in ops:
        r = mmul(r, slot(i, t, n))
    return r


def as_matrix(c, st, v):
    f = c.freeze(v, st)
    if isinstance(f, App) and f.op == "list":
        rows = f.args
        return len(rows), len(rows[0].args), [x for r in rows for x in r.args]
    if isinstance(f, (Const, Tup)):
        raise Refuted("%s where a matrix is expected" % show(f)[:60])
    if not (isinstance(f, App) and f.op == "arr"):
        raise Undecided("form of the matrix: %s" % show(f)[:80])
    shp = f.args[0].items
    if len(shp) != 2 or not all(isinstance(x, Const) for x in shp):
        raise Undecided("shape")
    return shp[0].v, shp[1].v, f.args[1].items


def same(c, st, v, want, k=None):
    n, m, el = as_matrix(c, st, v)
    if (n, m) != (len(want), len(want[0])):
        return False, "shape (%d, %d) instead of (%d, %d)" % (n, m, len(want), len(want[0]))
    vs = []
    for p, x in enumerate(el):
        w = Const(want[p // m][p % m])
        if k is not None:
            w = mul(k, w)
        e = c.veq(x, w, st)
        if e is False:
            return False, "element (%d, %d) is %s instead of %s" % (p // m, p % m, show(x), show(w))
        vs.append(e)
    return All(vs), ""


def pmul(a, b):
    return tuple(tuple(add(mul(a[i][0], b[0][j]), mul(a[i][1], b[1][j])) for j in range(2)) for i in range(2))


I2 = ((Const(1), Const(0)), (Const(0), Const(1)))


def slots(f):
    """(scalar, [2x2 matrix per tensor factor]) of a Kronecker-product form"""
    if isinstance(f, App) and f.op == "identity" and isinstance(f.args[0], Const):
        n = int(f.args[0].v)
        if n < 1 or n & (n - 1):
            raise Undecided("identity of size %d" % n)
        return Const(1), [I2] * (n.bit_length() - 1)
    if isinstance(f, App) and f.op == "arr":
        shp = tuple(x.v for x in f.args[0].items)
        el = f.args[1].items
        if shp == (1, 1):
            return el[0], []
        if shp == (2, 2):
            return Const(1), [((el[0], el[1]), (el[2], el[3]))]
    if isinstance(f, App) and f.op == "kron":
        a, x = Const(1), []
        for q in f.args:
            b, y = slots(q)
            a, x = mul(a, b), x + y
        return a, x
    if isinstance(f, App) and f.op in ("matmul", "dot"):
        a, x = slots(f.args[0])
        for q in f.args[1:]:
            b, y = slots(q)
            if len(x) != len(y):
                raise Refuted("product of matrices with %d and %d tensor factors" % (len(x), len(y)))
            a, x = mul(a, b), [pmul(p, r) for p, r in zip(x, y)]
        return a, x
    if isinstance(f, Poly) and len(f.terms) == 1:
        m, k = f.terms[0]
        s, rest = Const(k), None
        for a, n in m:
            if tyof(a) == "ndarray":
                if n != 1 or rest is not None:
                    raise Undecided("product form")
                rest = slots(a)
            else:
                for _ in range(n):
                    s = mul(s, a)
        if rest is not None:
            return mul(s, rest[0]), rest[1]
    raise Undecided("not a Kronecker product: %s" % show(f)[:80])


def wide(c, ops, n):
    """large systems: the result is compared as a Kronecker string, factor by factor"""
    from hpa import lib3
    st = c.fresh()
    k = Sym("k", "num")
    old, lib3.DENSE = lib3.DENSE, 1
    try:
        lst = st.new(ListRec([Tup((Const(i), Const(t))) for i, t in ops], owner="caller"))
        if len(ops) == 1 and ops[0][1] != "x":
            k = Const(1)
            v = c.do("F(o, n)", st, F=c.ip.attr(c.g(SS, "SpinOperator"), "matrix_function", st).value, o=Tup((Const(ops[0][0]), Const(ops[0][1]))), n=Const(n))
        else:
            v = c.do("F(l, n, coeff=k)", st, F=c.ip.attr(c.g(SS, "SpinInteraction"), "matrix_function", st).value, l=lst, n=Const(n), k=k)
        s, fac = slots(c.freeze(v, st))
    finally:
        lib3.DENSE = old
    if len(fac) != n:
        return False, "%d tensor factors instead of %d" % (len(fac), n)
    want = [((1, 0), (0, 1))] * n
    for i, t in ops:
        want[n - 1 - i] = mmul(want[n - 1 - i], MAT[t])
    scalar = s
    vs = []
    zero = any(all(x == 0 for r in w for x in r) for w in want)
    if zero:
        return (True, "") if any(all(x == Const(0) for r in f for x in r) for f in fac) else (None, "vanishing product")
    for p, (f, w) in enumerate(zip(fac, want)):
        i, j = next((i, j) for i in range(2) for j in range(2) if w[i][j] != 0)
        if c.veq(f[i][j], Const(0), st) is True:
            return False, "tensor factor of site %d is wrong" % (n - 1 - p)
        r = div(f[i][j], Const(w[i][j]))
        for a in range(2):
            for b in range(2):
                e = c.veq(f[a][b], mul(r, Const(w[a][b])), st)
                if e is False:
                    return False, "tensor factor of site %d is wrong at (%d, %d)" % (n - 1 - p, a, b)
                vs.append(e)
        scalar = mul(scalar, r)
    e = c.veq(scalar, k, st)
    if e is False:
        return False, "overall factor %s instead of %s" % (show(scalar), show(k))
    return All(vs + [e]), ""


def table_of(c, st, n, perm):
    """site index table over n sites; site p has index perm.index(p)"""
    S = c.g(QS, "SiteID")
    o = {}
    for i, j in itertools.combinations(range(n), 2):
        o[csym("s%d_" % i, 0), csym("s%d_" % j, 0)] = "<"
    with_order(st, o)
    ids = [c.call(S, [coords("s%d_" % p, 1)], {}, st) for p in perm]
    return c.call(c.g(IT, "IndexTable"), [st.new(ListRec(ids, owner="caller"))], {}, st)


def check(c):
    c.rule("constants", "every published spin and Pauli matrix is the standard one; raising = x + i y, lowering its adjoint")
    c.rule("operator", "matrix of a spin operator = its 2x2 matrix in its slot, identities elsewhere")
    c.rule("term", "matrix of a spin term = coefficient * product of the operator matrices in order, for either algorithm")
    constants(c)
    WO = c.where(c.cls_method(SS, "SpinOperator", "matrix_repr"))
    WT = c.where(c.cls_method(SS, "SpinInteraction", "matrix_repr"))
    SO, SI = c.g(SS, "SpinOperator"), c.g(SS, "SpinInteraction")
    N = 5 if c.thorough else 4
    for t in OTYPES:
        def fm():
            st = c.fresh()
            x = spin_op(c, st, t, "s0_")
            return same(c, st, c.do("x.matrix()", st, x=x), MAT[t])
        c.run("operator", "matrix() of %s" % t, fm, c.where(SO))
        for n in range(1, N + 1):
            for i in range(n):
                def fs():
                    st = c.fresh()
                    v = c.do("F((i, t), n)", st, F=c.ip.attr(SO, "matrix_function", st).value, i=Const(i), t=Const(t), n=Const(n))
                    return same(c, st, v, slot(i, t, n))
                c.run("operator", "matrix_function %s slot %d of %d" % (t, i, n), fs, WO)

                def fr():
                    st = c.fresh()
                    perm = tuple(range(n))[::-1]
                    tb = table_of(c, st, n, perm)
                    x = spin_op(c, st, t, "s%d_" % perm[i])
                    return same(c, st, c.do("x.matrix_repr(t)", st, x=x, t=tb), slot(i, t, n))
                c.run("operator", "matrix_repr %s slot %d of %d" % (t, i, n), fr, WO)
    # static matrix_function on (index, type) pairs
    cases = []
    for n in range(2, N + 1):
        for i, j in itertools.product(range(n), repeat=2):
            for a, b in itertools.product(OTYPES, repeat=2):
                if n == N and not c.thorough and (a, b) not in (("x", "y"), ("p", "m"), ("y", "z"), ("z", "p")):
                    continue
                cases.append((((i, a), (j, b)), n))
    cases += [(((0, a),), 1) for a in OTYPES] + [((), 1), ((), 2), ((), 3)]
    cases += [(((i, a), (i, b)), 1) for i in (0,) for a, b in itertools.product(OTYPES, repeat=2)]
    for n in (2, 3):
        for idx in itertools.product(range(n), repeat=3):
            for ts in (("x", "y", "z"), ("p", "m", "x"), ("z", "p", "y")) if n == 3 else (("x", "y", "z"), ("p", "z", "m"), ("y", "p", "p")):
                cases.append((tuple(zip(idx, ts)), n))
    for idx, ts in (((0, 1, 2, 3), "xypm"), ((3, 1, 3, 0), "pyzm"), ((2, 2, 2, 1), "xyzp"), ((1, 0, 1, 0), "pxmy"), ((3, 2, 1, 0), "yyzz")):
        cases.append((tuple(zip(idx, ts)), 4))
    for ops, n in cases:
        def ft():
            st = c.fresh()
            k = Sym("k", "num")
            lst = st.new(ListRec([Tup((Const(i), Const(t))) for i, t in ops], owner="caller"))
            v = c.do("F(l, n, coeff=k)", st, F=c.ip.attr(SI, "matrix_function", st).value, l=lst, n=Const(n), k=k)
            return same(c, st, v, spec(ops, n), k)
        c.run("term", "matrix_function %s of %d" % (" ".join("%s%d" % (t, i) for i, t in ops), n), ft, WT)
    for n in sizes(c, (SS,), 6, 60, (8, 20, 40)):
        ws = [((i, t),) for i in (0, 1, n // 2, n - 2, n - 1) for t in OTYPES]
        ws += [((i, a), (j, b)) for i in (0, 3, n // 2, n - 1) for j in (0, 2, n // 2 + 1, n - 1) for a, b in (("x", "y"), ("p", "m"), ("z", "z"))]
        ws += [((n - 1, "x"), (2, "y"), (0, "z")), ((0, "p"), (3, "x"), (0, "m")), ((4, "y"), (4, "x"), (4, "z")), ((1, "z"), (5, "x"), (3, "y"), (n - 2, "m")), ()]
        for ops in ws:
            c.run("term" if len(ops) != 1 else "operator", "%s of %d sites, factor by factor" % (" ".join("%s%d" % (t, i) for i, t in ops), n), lambda: wide(c, ops, n), WT if len(ops) != 1 else WO)
    for m in sizes(c, (SS,), 5, 70, (7, 12)):
        for n in (2, 3):
            ops = tuple(((3 * i + i // 4) % n, "pxmzy"[(i + i // 5) % 5] if i % 3 else "xz"[i % 2]) for i in range(m))
            ones = tuple((i % n, "z" if i % 7 else "x") for i in range(m))
            for ops in (ops, ones):
                def fl():
                    st = c.fresh()
                    k = Sym("k", "num")
                    lst = st.new(ListRec([Tup((Const(i), Const(t))) for i, t in ops], owner="caller"))
                    v = c.do("F(l, n, coeff=k)", st, F=c.ip.attr(SI, "matrix_function", st).value, l=lst, n=Const(n), k=k)
                    return same(c, st, v, spec(ops, n), k)
                c.run("term", "matrix_function of %d operators on %d sites, %s" % (m, n, "rotations" if ops is ones else "mixed"), fl, WT)
    # whole path: SpinInteraction.matrix_repr with tables in several orders
    for n, perms in ((2, ((0, 1), (1, 0))), (3, ((0, 1, 2), (2, 0, 1), (1, 2, 0)))):
        for perm in perms:
            sel = []
            for m in (1, 2, 3) if n == 3 else (1, 2):
                for sites in itertools.product(range(n), repeat=m):
                    for ts in {1: ("p", "y"), 2: ("xy", "pm", "zp", "mx"), 3: ("xyz", "pzm")}[m]:
                        sel.append(tuple(zip(sites, ts)))
            for ops in sel:
                for newk in ((False, True) if ops[0][1] == "p" else (False,)):
                    def fw():
                        st = c.fresh()
                        tb = table_of(c, st, n, perm)
                        k = Sym("k", "num")
                        os_ = [spin_op(c, st, t, "s%d_" % s) for s, t in ops]
                        x = c.call(SI, [Tup(os_)], {"coeff": k}, st)
                        if newk:
                            k = Sym("k2", "num")
                            v = c.do("x.matrix_repr(t, coeff=k)", st, x=x, t=tb, k=k)
                        else:
                            v = c.do("x.matrix_repr(t)", st, x=x, t=tb)
                        return same(c, st, v, spec([(perm.index(s), t) for s, t in ops], n), k)
                    c.run("term", "matrix_repr %s table %s%s" % (" ".join("%s@%d" % (t, s) for s, t in ops), perm, " new coefficient" if newk else ""), fw, WT)
    return c.finish(EXPL, floor=60)


def constants(c):
    W = "HamiltonianPy/quantumoperator/constant.py"
    for nm, fac in (("SPIN", 1), ("SIGMA", 2)):
        for t in OTYPES:
            want = tuple(tuple(fac * x for x in r) for r in MAT[t])

            def f1():
                st = c.fresh()
                return same(c, st, c.g(CO, "%s_%s" % (nm, t.upper())), want)
            c.run("constants", "%s_%s" % (nm, t.upper()), f1, W)

            def f2():
                st = c.fresh()
                return same(c, st, c.do("d[k]", st, d=c.g(CO, "%s_MATRICES" % nm), k=Const(t)), want)
            c.run("constants", "%s_MATRICES[%r]" % (nm, t), f2, W)

    def f3():
        st = c.fresh()
        up, down = c.g(CO, "SPIN_UP"), c.g(CO, "SPIN_DOWN")
        return All(c.veq(up, Const(1), st), c.veq(down, Const(0), st)), "SPIN_UP %s SPIN_DOWN %s" % (show(up), show(down))
    c.run("constants", "SPIN_UP / SPIN_DOWN", f3, W)

    def f4():
        st = c.fresh()
        v = c.do("set(x)", st, x=c.g(CO, "SPIN_OTYPES"))
        return c.veq(c.freeze(v, st), c.freeze(c.do("{'x','y','z','p','m'}", st), st), st)
    c.run("constants", "SPIN_OTYPES", f4, W)
