"""C21: quantum averages and total-spin operators."""
from .common import *
from .c10 import mkron, eye, mmul, as_matrix, same
from . import c10

EXPL = ("QuantumAverages and the calculators built by TotalSpinAverages are evaluated abstractly on kets with free complex components (dimension 1 to 8, vector and column form) and operators with free complex entries; "
        "the result is compared, as a rational form in the components, with <ket|O|ket>/<ket|ket>. TotalSpinMatrices and the command-line variant are folded for 1 to 5 sites (6 in the thorough tier) and compared entry by entry "
        "with the sum over sites of the spin-1/2 matrices, and for larger systems as sums of Kronecker strings. The inputs and the matrices shared by the calculator must stay unchanged between calls.")

H = 0.5
SPIN = {"x": ((0, H), (H, 0)), "y": ((0, -H), (H, 0)), "z": ((H, 0), (0, -H))}


def total(t, n):
    d = 2 ** n
    r = [[0] * d for _ in range(d)]
    for i in range(n):
        m = mkron(eye(2 ** (n - i - 1)), mkron(SPIN[t], eye(2 ** i)))
        for a in range(d):
            for b in range(d):
                r[a][b] += m[a][b]
    return tuple(map(tuple, r))


def ket(st, n, shape, name="k"):
    el = [Sym("%s%d" % (name, i), "complex") for i in range(n)]
    return el, L.new_arr(st, shape, list(el), owner="caller")


def expect(el, M):
    r = Const(0)
    for i, row in enumerate(M):
        for j, x in enumerate(row):
            x = x if isinstance(x, Val) else Const(x)
            if x != Const(0):
                r = add(r, mul(mul(conj(el[i]), el[j]), x))
    return r


def nrm(el):
    r = Const(0)
    for x in el:
        r = add(r, mul(conj(x), x))
    return r


def scalar(c, st, v):
    """a number, or the only element of an array"""
    f = c.freeze(v, st)
    if isinstance(f, App) and f.op == "arr" and len(f.args[1].items) == 1:
        return f.args[1].items[0]
    return f


def avg_is(c, st, v, num, den):
    f = scalar(c, st, v)
    r = c.veq(mul(f, den), num, st)
    if r is None:
        r = c.veq(f, div(num, den), st)
    return r


def setup(c, st, el):
    """the ket is not the null vector"""
    st.assume(cmp_num("eq", nrm(el), Const(0)), False)
    st.assume(cmp_num("gt", nrm(el), Const(0)), True)


def check(c):
    c.rule("average", "QuantumAverages(ket, O) = <ket|O|ket>/<ket|ket>")
    c.rule("matrices", "total spin matrices = sum over sites of the spin-1/2 matrices (Sy: its imaginary part)")
    c.rule("averages", "calculator returns (S^2, Sx, Sy, Sz) averages of the normalised state")
    c.rule("history", "a calculator may be used repeatedly; kets and operators are not modified")
    c.rule("refusal", "site numbers that are not positive integers are refused")
    QA, TM, TA = c.g(AV, "QuantumAverages"), c.g(AV, "TotalSpinMatrices"), c.g(AV, "TotalSpinAverages")
    TS = c.g(TL + ".TotalSpin", "TotalSpin")
    for n in (1, 2, 3, 4) + ((5, 8) if c.thorough else ()):
        for shape in ((n,), (n, 1)):
            def fn():
                st = c.fresh()
                el, k = ket(st, n, shape)
                setup(c, st, el)
                m = [[Sym("o%d%d" % (i, j), "complex") for j in range(n)] for i in range(n)]
                o = L.new_arr(st, (n, n), [x for r in m for x in r], owner="caller")
                st.rec(o).kind = "csr"
                f0 = c.freeze(Tup((k, o)), st)
                v = c.do("f(k, o)", st, f=QA, k=k, o=o)
                if c.veq(c.freeze(Tup((k, o)), st), f0, st) is not True:
                    return False, "the ket or the operator is modified"
                return avg_is(c, st, v, expect(el, m), nrm(el)), "the result is not <ket|O|ket>/<ket|ket>"
            c.run("average", "dimension %d, ket of shape %s" % (n, shape), fn, c.where(QA))
    for name, F in (("TotalSpinMatrices", TM), ("tools.TotalSpin", TS)):
        for n in range(1, 7 if c.thorough else 6):
            def fm():
                st = c.fresh()
                v = c.do("f(n)", st, f=F, n=Const(n))
                it = c.items(v, st)
                if len(it) != 3:
                    return False, "%d matrices instead of 3" % len(it)
                for t, m in zip("xyz", it):
                    r, why = same(c, st, m, total(t, n))
                    if r is not True:
                        return r, "total S%s: %s" % (t, why)
                return True
            c.run("matrices", "%s(%d)" % (name, n), fm, c.where(F))
        for bad in (0, -1, 2.0, 1.5, "2", None):
            c.run("refusal", "%s(%r)" % (name, bad), lambda: c.refuses(c.ex("f(n)", c.fresh(), f=F, n=Const(bad))), c.where(F))

        def fb():
            st = c.fresh()
            n = Sym("n", "int")
            st.assume(cmp_num("le", n, Const(0)), True)
            return c.refuses(c.ex("f(n)", st, f=F, n=n))
        c.run("refusal", "%s(every n <= 0)" % name, fb, c.where(F))
        for n in sizes(c, (AV,), 7, 23, (9, 12, 16) + ((20, 24) if c.thorough else ()), 8):
            c.run("matrices", "%s(%d)" % (name, n), lambda: wide(c, F, n), c.where(F))
    for n in sizes(c, (AV,), 5, 130, (9, 40), 6):
        def fl():
            for shape in ((n,), (n, 1)):
                st = c.fresh()
                a = [complex(i % 5 - 2, i % 3) + 0.5 for i in range(n)]
                k = L.new_arr(st, shape, [Const(x) for x in a], owner="caller")
                m = [[complex((i * 7 + j * 3) % 11 - 5, (i + 2 * j) % 4) if (i - j) % 3 == 0 else 0 for j in range(n)] for i in range(n)]
                o = L.new_arr(st, (n, n), [Const(x) for r in m for x in r], owner="caller")
                st.rec(o).kind = "csr"
                v = scalar(c, st, c.do("f(k, o)", st, f=QA, k=k, o=o))
                if not isinstance(v, Const):
                    return None, show(v)[:80]
                w = sum(a[i].conjugate() * m[i][j] * a[j] for i in range(n) for j in range(n)) / sum(abs(x) ** 2 for x in a)
                if abs(v.v - w) > 1e-9 * max(1, abs(w)):
                    return False, "average %s instead of %s" % (v.v, w)
            return True
        c.run("average", "dimension %d, constant ket and operator" % n, fl, c.where(QA))
    # the averages do not depend on the norm of the ket, whatever its magnitude
    mags = sorted({1e-9, 1e-6, 1e-3, 1.0, 1e3, 1e7} | {abs(x) * q for x in constants(c, (AV,)) if 1e-13 < abs(x) < 1e9 for q in (0.1, 10)})
    for n in (1, 2):
        for mag in mags:
            def fmag():
                d = 2 ** n
                a = [mag * complex(i % 3 - 0.75, 0.5 * i - 0.25) for i in range(d)]
                m = [[complex(i + j, 2 * i - j) for j in range(d)] for i in range(d)]
                nn = sum(abs(x) ** 2 for x in a)
                ex = lambda M: sum(a[i].conjugate() * M[i][j] * a[j] for i in range(d) for j in range(d)) / nn
                spec = {t: total(t, n) for t in "xyz"}
                s2 = [[sum((-1 if t == "y" else 1) * mmul(spec[t], spec[t])[i][j] for t in "xyz") for j in range(d)] for i in range(d)]
                wants = [ex(s2), ex(spec["x"]), ex([[1j * x for x in r] for r in spec["y"]]), ex(spec["z"])]
                for shape in ((d,), (d, 1)):
                    st = c.fresh()
                    k = L.new_arr(st, shape, [Const(x) for x in a], owner="caller")
                    o = L.new_arr(st, (d, d), [Const(x) for r in m for x in r], owner="caller")
                    st.rec(o).kind = "csr"
                    got = [scalar(c, st, c.do("f(k, o)", st, f=QA, k=k, o=o))]
                    got += [scalar(c, st, x) for x in c.items(c.do("f(k)", st, f=c.do("f(n)", st, f=TA, n=Const(n)), k=k), st)]
                    for x, w, nm in zip(got, [ex(m)] + wants, ("QuantumAverages", "S^2", "Sx", "Sy", "Sz")):
                        if not isinstance(x, Const):
                            return None, show(x)[:80]
                        if abs(x.v - w) > 1e-7:
                            return False, "%s is %s instead of %s" % (nm, x.v, w)
                return True
            c.run("averages", "%d sites, constant ket of magnitude %g" % (n, mag), fmag, c.where(TA))
    for n in (1, 2) + ((3,) if c.thorough else ()):
        d = 2 ** n
        spec = {t: total(t, n) for t in "xyz"}
        s2 = [[sum((-1 if t == "y" else 1) * mmul(spec[t], spec[t])[i][j] for t in "xyz") for j in range(d)] for i in range(d)]
        want = [("S^2", s2), ("Sx", spec["x"]), ("Sy", [[1j * x for x in r] for r in spec["y"]]), ("Sz", spec["z"])]
        for shape in ((d,), (d, 1)):
            for w, (nm, M) in enumerate(want):
                def fa():
                    st = c.fresh()
                    el, k = ket(st, d, shape)
                    setup(c, st, el)
                    f = c.do("f(n)", st, f=TA, n=Const(n))
                    v = c.do("f(k)", st, f=f, k=k)
                    it = c.items(v, st)
                    if len(it) != 4:
                        return False, "%d averages instead of 4" % len(it)
                    return avg_is(c, st, it[w], expect(el, M), nrm(el)), "average of %s" % nm
                c.run("averages", "%d sites, ket of shape %s: %s" % (n, shape, nm), fa, c.where(TA))

            def fh():
                st = c.fresh()
                el, k = ket(st, d, shape)
                e2, k2 = ket(st, d, shape, "q")
                setup(c, st, el)
                setup(c, st, e2)
                f0 = c.freeze(Tup((k, k2)), st)
                f = c.do("f(n)", st, f=TA, n=Const(n))
                a = c.freeze(c.do("f(k)", st, f=f, k=k), st)
                b = c.freeze(c.do("f(k)", st, f=f, k=k2), st)
                if c.veq(c.freeze(Tup((k, k2)), st), f0, st) is not True:
                    return False, "the ket is modified"
                s2 = c.fresh()
                _, q = ket(s2, d, shape, "q")
                setup(c, s2, e2)
                g = c.do("f(n)", s2, f=TA, n=Const(n))
                return c.veq(b, c.freeze(c.do("f(k)", s2, f=g, k=q), s2), s2), "the second result depends on the first call"
            c.run("history", "%d sites, ket of shape %s: two calls" % (n, shape), fh, c.where(TA))
    return c.finish(EXPL, floor=25)


def strings(f):
    """[(scalar, slots)] of a sum of Kronecker strings"""
    if isinstance(f, Poly):
        out = []
        for m, k in f.terms:
            if not m:
                if k != 0:
                    raise Undecided("constant added to a matrix")
                continue
            out.append(c10.slots(Poly(((m, k),), f.ty)))
        return out
    return [c10.slots(f)]


def wide(c, F, n):
    from hpa import lib3
    st = c.fresh()
    old, lib3.DENSE = lib3.DENSE, 1
    try:
        v = c.do("f(n)", st, f=F, n=Const(n))
    finally:
        lib3.DENSE = old
    it = c.items(v, st)
    if len(it) != 3:
        return False, "%d matrices instead of 3" % len(it)
    for t, m in zip("xyz", it):
        tot = {}
        for s, fac in strings(c.freeze(m, st)):
            if len(fac) != n:
                return False, "total S%s: a term with %d tensor factors instead of %d" % (t, len(fac), n)
            key = []
            for w in fac:
                e = [x.v if isinstance(x, Const) else None for r in w for x in r]
                if None in e:
                    raise Undecided("tensor factor")
                p = next((x for x in e if x != 0), None)
                if p is None:
                    s = Const(0)
                    break
                if e[0] != 0 or e[3] != 0:
                    p = e[0] if e[0] != 0 else e[3]
                s = mul(s, Const(p))
                key.append(tuple(x / p for x in e))
            else:
                tot[tuple(key)] = add(tot.get(tuple(key), Const(0)), s)
        want = {}
        p0 = next(x for r in SPIN[t] for x in r if x != 0)
        for i in range(n):
            key = [(1.0, 0.0, 0.0, 1.0)] * n
            key[n - 1 - i] = tuple(x / p0 for r in SPIN[t] for x in r)
            want[tuple(key)] = Const(p0)
        tot = {k: s for k, s in tot.items() if s != Const(0)}
        if set(tot) != set(want):
            return False, "total S%s: the terms are not one spin matrix per site" % t
        if any(not isinstance(s, Const) or abs(s.v - want[k].v) > 1e-12 for k, s in tot.items()):
            return False, "total S%s: wrong weight of a site" % t
    return True
