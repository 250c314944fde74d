"""C13: Krylov representations."""
from .common import *
from .c16 import fresh

EXPL = ("KrylovRepresentation and MultiKrylov are evaluated abstractly on every Hermitian operator of dimension 1 to 5 written in its Krylov basis: free real diagonal coefficients, free positive off-diagonal coefficients, complex phases of the basis, "
        "a seed of free norm along the first (or last) basis vector and vectors with free complex components. The partition covers every requested dimension, every breakdown point (coefficient exactly zero, or positive but below the threshold) and seeds above / below the threshold; "
        "shape, entries, keys, lengths and components are compared with the definition, refusal and untouched inputs are checked.")

PH = (1j, 1, -1j, -1, 1j, 1)


class Chain:
    """Hermitian tridiagonal operator with phases; zero: set of exactly vanishing couplings"""

    def __init__(self, c, st, n, zero=(), kind="ndarray", real=False, couplings=(), norm=0.5):
        self.n = n
        self.u = [Const(1 if real else PH[i % 6]) for i in range(n)]
        self.a = [Sym("a%d" % i, "float") if n < 7 else Const(0.25 * (i * i % 7) - 0.5) for i in range(n)]
        self.b = [Const(0.0) if i in zero else power(Sym("t%d" % i, "float"), Const(2)) if n < 7 else Const(1.0 + 0.5 * (i % 3)) for i in range(n - 1)]
        self.norm = norm
        for i, v in dict(couplings).items():
            self.b[i] = Const(v)
        el = []
        for i in range(n):
            for j in range(n):
                t = self.a[i] if i == j else self.b[min(i, j)] if abs(i - j) == 1 else Const(0.0)
                el.append(mul(mul(self.u[i], t), conj(self.u[j])))
        self.ref = L.new_arr(st, (n, n), el, owner="caller")
        if kind != "ndarray":
            st.rec(self.ref).kind = kind

    def seed(self, st, i, name, col):
        s = power(Sym(name, "float"), Const(2)) if self.n < 7 else Const(self.norm)
        el = [mul(s, self.u[i]) if k == i else Const(0.0) for k in range(self.n)]
        return s, L.new_arr(st, (self.n, 1) if col else (self.n,), el, owner="caller"), el


def big(st, v, yes=True):
    if not isinstance(v, Const):
        for op, val in (("gt", yes), ("le", not yes), ("lt", not yes), ("ge", yes)):
            st.assume(cmp_num(op, v, Const(1e-4)), val)
        if yes:
            st.assume(cmp_num("gt", v, Const(0)), True)


def run_krylov(c, F, n, dim, stop, real, col, kind, last, as_kw):
    """stop: None or (index of the coupling, 'zero'|'small')"""
    st = fresh(c)
    ch = Chain(c, st, n, zero=(stop[0],) if stop and stop[1] == "zero" else (), kind=kind, real=real)
    for i, b in enumerate(ch.b):
        if stop and stop == (i, "small"):
            big(st, b, False)
        else:
            big(st, b)
    i0 = n - 1 if last else 0
    s, v0, sel = ch.seed(st, i0, "s", col)
    big(st, s)
    w = {}
    for k in ("x", "y"):
        w[k] = [Sym("%s%d" % (k, i), "complex") for i in range(n)]
    arrs = {k: L.new_arr(st, (n, 1) if col else (n,), list(e), owner="caller") for k, e in w.items()}
    w["seed"], arrs["seed"] = sel, v0
    d = c.do("{'x': x, 7: y, 'seed': v}", st, x=arrs["x"], y=arrs["y"], v=v0)
    inp = Tup((ch.ref, d, v0))
    f0 = c.freeze(inp, st)
    if dim is None:
        v = c.do("F(M, d, v0)", st, F=F, M=ch.ref, d=d, v0=v0)
    else:
        v = c.do("F(M, d, v0=v0, krylov_space_dim=k)" if as_kw else "F(M, d, v0, k)", st, F=F, M=ch.ref, d=d, v0=v0, k=Const(dim))
    if c.veq(c.freeze(inp, st), f0, st) is not True:
        return False, "the operator, the seed or the vectors are modified"
    order = list(range(n))[::-1] if last else list(range(n))
    m = n if dim is None else min(n, dim)
    if stop:
        cut = stop[0] + 1 if not last else n - 1 - stop[0]
        m = min(m, cut)
    return compare(c, st, v, ch, order[:m], {"x": w["x"], 7: w["y"], "seed": w["seed"]})


def compare(c, st, v, ch, order, w):
    it = c.items(v, st)
    if len(it) != 2:
        return False, "%d results instead of a matrix and a dictionary" % len(it)
    r, why = matrix(c, st, it[0], ch, order)
    if r is not True:
        return r, why
    return vectors(c, st, it[1], ch, order, w)


def plain_sequence(v, st):
    """a list, a tuple or a dictionary where an array is promised"""
    return isinstance(v, (Tup, Const)) or isinstance(v, Ref) and isinstance(st.rec(v), (ListRec, DictRec))


def matrix(c, st, mref, ch, order):
    m = len(order)
    f = c.freeze(mref, st)
    if not (isinstance(f, App) and f.op == "arr"):
        if plain_sequence(mref, st):
            return False, "the representation is a plain sequence, not an array"
        raise Undecided("form of the matrix: " + show(f)[:60])
    shp = tuple(x.v for x in f.args[0].items)
    if shp != (m, m):
        return False, "representation of shape %s instead of (%d, %d)" % (shp, m, m)
    vs = []
    for i in range(m):
        for j in range(m):
            p, q = order[i], order[j]
            want = ch.a[p] if i == j else ch.b[min(p, q)] if abs(i - j) == 1 else Const(0.0)
            e = c.veq(f.args[1].items[i * m + j], want, st)
            if e is False:
                return False, "element (%d, %d) is %s instead of %s" % (i, j, show(f.args[1].items[i * m + j])[:60], show(want))
            vs.append(e)
    return All(vs), "entries of the representation"


def vectors(c, st, dref, ch, order, w):
    ln = c.do("len(d)", st, d=dref)
    if ln != Const(len(w)):
        return (False if isinstance(ln, Const) else None), "%s projected vectors instead of %d" % (show(ln), len(w))
    vs = []
    for k, e in w.items():
        out = c.ex("d[k]", st, d=dref, k=Const(k))
        r, why = c.returns(out)
        if r is not True:
            return r, "key %r: %s" % (k, why)
        f = c.freeze(out.value, st)
        if not (isinstance(f, App) and f.op == "arr"):
            if plain_sequence(out.value, st):
                return False, "the projected vector of key %r is a plain sequence, not an array" % (k,)
            raise Undecided("form of the projected vector")
        el = f.args[1].items
        if len(el) != len(order) or len(f.args[0].items) != 1:
            return False, "projected vector %r has %d components instead of %d" % (k, len(el), len(order))
        for i, (x, p) in enumerate(zip(el, order)):
            t = c.veq(x, mul(conj(ch.u[p]), e[p]), st)
            if t is False:
                return False, "component %d of projected vector %r is %s instead of %s" % (i, k, show(x)[:60], show(mul(conj(ch.u[p]), e[p])))
            vs.append(t)
    return All(vs), "components of the projected vectors"


def check(c):
    c.rule("krylov", "tridiagonal representation and overlaps of the Krylov basis of the normalised seed, breakdown- and dimension-bounded")
    c.rule("zero seed", "a seed whose norm does not exceed the threshold is refused")
    c.rule("multi", "every key's representation and overlaps come from that key's own seed")
    c.rule("empty", "no vectors: only the representation")
    F, G = c.g(LZ, "KrylovRepresentation"), c.g(LZ, "MultiKrylov")
    # the norm of the seed and the size of the operator do not decide about the breakdown, the couplings do
    for norm in (2e-4, 1e-2, 1.0, 3e2, 1e5, 1e8):
        for couplings, end in (({}, 7), ({3: 9e-5}, 4), ({3: 1.5e-4}, 7), ({0: 0.0}, 1), ({2: 2e3}, 7), ({i: 2e3 + i for i in range(6)}, 7), ({i: 3e-4 for i in range(6)}, 7), ({0: 2e3, 1: 9e-5}, 2)):
            def scaled():
                st = fresh(c)
                ch = Chain(c, st, 7, couplings=couplings, norm=norm)
                s, v0, _ = ch.seed(st, 0, "s", False)
                w = {0: [Const(0.5 * (q % 3) - 0.25) for q in range(7)]}
                x = L.new_arr(st, (7,), list(w[0]), owner="caller")
                v = c.do("F(M, d, v0=v0)", st, F=F, M=ch.ref, v0=v0, d=c.do("{0: x}", st, x=x))
                return compare(c, st, v, ch, list(range(end)), w)
            c.run("krylov", "seed of norm %g, couplings %s" % (norm, couplings or "of order one"), scaled, c.where(F))
    N = 6 if c.thorough else 4
    for n in range(1, N + 1):
        stops = [None] + [(i, k) for i in range(n - 1) for k in ("zero", "small")]
        for stop in stops:
            for dim in [None] + list(range(1, n + 2)):
                for last in (False, True):
                    if last and (n == 1 or not c.thorough and dim not in (None, 2)):
                        continue
                    for col, kind, real in ((False, "ndarray", False), (True, "csr", False), (False, "csr", True)):
                        if real and (last or dim is None):
                            continue
                        nm = "dimension %d, breakdown %s, %s requested, seed %s, %s, %s%s" % (n, stop or "none", dim or "default", "last" if last else "first", "column" if col else "vector", kind, ", real" if real else "")
                        c.run("krylov", nm, lambda: run_krylov(c, F, n, dim, stop, real, col, kind, last, col), c.where(F))
    for n in (1, 2, 3):
        for how in ("zero", "small"):
            def fz():
                st = fresh(c)
                ch = Chain(c, st, n)
                for b in ch.b:
                    big(st, b)
                s, v0, el = ch.seed(st, 0, "s", False)
                if how == "zero":
                    v0 = L.new_arr(st, (n,), [Const(0.0)] * n, owner="caller")
                else:
                    big(st, s, False)
                d = c.do("{'x': v}", st, v=v0)
                return c.refuses(c.ex("F(M, d, v0, 3)", st, F=F, M=ch.ref, d=d, v0=v0), ("ValueError",))
            c.run("zero seed", "dimension %d, norm %s" % (n, "zero" if how == "zero" else "below the threshold"), fz, c.where(F))

            for tiny in ((5e-5,), (5e-5j,), (-3e-5, 4e-5j), (2e-9j, 0.0), (0.0, -9e-5), (4e-5, 4e-5, 4e-5j)):
                if len(tiny) != n or how == "zero":
                    continue

                def ft(multi):
                    st = fresh(c)
                    ch = Chain(c, st, n)
                    v0 = L.new_arr(st, (n,), [Const(complex(x) if any(isinstance(y, complex) for y in tiny) else x) for x in tiny], owner="caller")
                    d = c.do("{'x': v}", st, v=v0)
                    if multi:
                        return c.refuses(c.ex("G(M, d, 2)", st, G=G, M=ch.ref, d=d), ("ValueError",))
                    return c.refuses(c.ex("F(M, d, v0, 2)", st, F=F, M=ch.ref, d=d, v0=v0), ("ValueError",))
                c.run("zero seed", "seed %s" % (tiny,), lambda: ft(False), c.where(F))
                c.run("zero seed", "MultiKrylov seed %s" % (tiny,), lambda: ft(True), c.where(G))

            def fzm():
                st = fresh(c)
                ch = Chain(c, st, n)
                for b in ch.b:
                    big(st, b)
                s, v0, el = ch.seed(st, 0, "s", False)
                big(st, s)
                _, v1, _ = ch.seed(st, n - 1, "r", False)
                if how == "zero":
                    v1 = L.new_arr(st, (n,), [Const(0.0)] * n, owner="caller")
                else:
                    big(st, power(Sym("r", "float"), Const(2)), False)
                d = c.do("{'x': v, 'y': w}", st, v=v0, w=v1)
                return c.refuses(c.ex("G(M, d, 3)", st, G=G, M=ch.ref, d=d), ("ValueError",))
            c.run("zero seed", "MultiKrylov dimension %d, second vector of norm %s" % (n, "zero" if how == "zero" else "below the threshold"), fzm, c.where(G))

        def fe():
            st = fresh(c)
            ch = Chain(c, st, n)
            for b in ch.b:
                big(st, b)
            s, v0, el = ch.seed(st, 0, "s", False)
            big(st, s)
            v = c.do("F(M, {}, v0, 5)", st, F=F, M=ch.ref, v0=v0)
            return compare(c, st, v, ch, list(range(n)), {})
        c.run("empty", "dimension %d" % n, fe, c.where(F))
    for n in range(1, N + 1):
        for dim in [None] + list(range(1, n + 1)):
            for col in (False, True):
                for flip in (False, True):
                    c.run("multi", "dimension %d, %s requested, %s%s" % (n, dim or "default", "columns" if col else "vectors", ", keys exchanged" if flip else ""), lambda: multi(c, G, n, dim, col, flip), c.where(G))
    for n in sizes(c, (LZ,), 7, 64, (12,)):
        for stop, dim in ((None, None), (None, n - 1), (None, n), (None, n + 3), ((n - 3, "zero"), None), ((n // 2, "zero"), n)):
            for last, real in ((False, True), (True, False)):
                c.run("krylov", "dimension %d, breakdown %s, %s requested, seed %s" % (n, stop or "none", dim or "default", "last" if last else "first"),
                      lambda: run_krylov(c, F, n, dim, stop, real, False, "csr" if real else "ndarray", last, True), c.where(F))
        c.run("multi", "dimension %d" % n, lambda: multi(c, G, n, n - 1, False, False), c.where(G))
    for m in sizes(c, (LZ,), 4, 130, (9, 24)):
        def many(multi):
            st = fresh(c)
            ch = Chain(c, st, 7)
            w, keys = {}, {}
            for i in range(m):
                w[i] = [Const(0.5 * ((i + 1) * (q + 1) % 11) + 0.5) for q in range(7)]
                keys[i] = L.new_arr(st, (7,), list(w[i]), owner="caller")
            d = st.new(DictRec([(Const(k), v) for k, v in keys.items()]))
            if not multi:
                s, v0, _ = ch.seed(st, 0, "s", False)
                return compare(c, st, c.do("F(M, d, v0=v0, krylov_space_dim=4)", st, F=F, M=ch.ref, d=d, v0=v0), ch, list(range(4)), w)
            rm, rv = c.items(c.do("G(M, d, krylov_space_dim=2)", st, G=G, M=ch.ref, d=d), st)
            vs = []
            for k in range(m):
                v0 = keys[k]
                one = c.items(c.do("F(M, d, v0=v0, krylov_space_dim=2)", st, F=F, M=ch.ref, d=d, v0=v0), st)
                a, b = c.freeze(c.do("(r[k], v[k])", st, r=rm, v=rv, k=Const(k)), st), c.freeze(c.do("(x, v)", st, x=one[0], v=one[1]), st)
                e = c.veq(a, b, st)
                if e is False:
                    return False, "key %d of %d: not the representation of its own seed" % (k, m)
                vs.append(e)
            return All(vs), "representations"
        c.run("krylov", "%d vectors" % m, lambda: many(False), c.where(F))
        if m < 40:
            c.run("multi", "%d vectors" % m, lambda: many(True), c.where(G))
    return c.finish(EXPL, floor=150)


def multi(c, G, n, dim, col, flip):
    st = fresh(c)
    ch = Chain(c, st, n)
    for b in ch.b:
        big(st, b)
    s, v0, e0 = ch.seed(st, 0, "s", col)
    r, v1, e1 = ch.seed(st, n - 1, "r", col)
    big(st, s)
    big(st, r)
    w = {"p": e0, "q": e1} if not flip else {"p": e1, "q": e0}
    d = c.do("{'p': v, 'q': w}", st, v=v0 if not flip else v1, w=v1 if not flip else v0)
    inp = Tup((ch.ref, d))
    f0 = c.freeze(inp, st)
    v = c.do("G(M, d)", st, G=G, M=ch.ref, d=d) if dim is None else c.do("G(M, d, krylov_space_dim=k)", st, G=G, M=ch.ref, d=d, k=Const(dim))
    if c.veq(c.freeze(inp, st), f0, st) is not True:
        return False, "the operator or the vectors are modified"
    it = c.items(v, st)
    if len(it) != 2:
        return False, "%d results" % len(it)
    m = n if dim is None else min(n, dim)
    vs = []
    for k in ("p", "q"):
        order = (list(range(n)) if (k == "p") != flip else list(range(n))[::-1])[:m]
        for what, f in (("matrix", lambda x: matrix(c, st, x, ch, order)), ("vectors", lambda x: vectors(c, st, x, ch, order, w))):
            out = c.ex("d[k]", st, d=it[0] if what == "matrix" else it[1], k=Const(k))
            r, why = c.returns(out)
            if r is not True:
                return r, "key %r: %s" % (k, why)
            r, why = f(out.value)
            if r is not True:
                return r, "key %r: %s" % (k, why)
    for q in it:
        ln = c.do("len(d)", st, d=q)
        if ln != Const(2):
            return (False if isinstance(ln, Const) else None), "%s keys instead of 2" % show(ln)
    return True
