"""C12: Green's functions."""
from .common import *

EXPL = ("All eight solver functions are evaluated abstractly on Hamiltonian (or Krylov) matrices with free complex entries of dimension 1 to 3, states with free complex components, symbolic frequencies, broadening and ground-state energy, "
        "for fermion and spin operators, operator lists of different lengths (including operators shared between the lists and adjoint pairs), both signs and both output structures. Every returned number is compared, as a rational form, with "
        "<GS|A M^-1 B|GS> computed from the definition (M = z - GE + H for '+', M = z + GE - H for '-'; retarded: '-' part of (A, B) plus/minus '+' part of (B, A)); shapes, dictionary keys and untouched inputs are checked as well. "
        "The Lanczos variants are given Krylov data whose seed has a component along the first basis vector only (the C13 guarantee).")


def cx(name):
    return Sym(name, "complex")


def det(m):
    n = len(m)
    if n == 0:
        return Const(1)
    r = Const(0)
    for j in range(n):
        t = mul(m[0][j], det([row[:j] + row[j + 1:] for row in m[1:]]))
        r = add(r, t) if j % 2 == 0 else sub(r, t)
    return r


def solve_form(m, a, b):
    """conj(a) . m^-1 b  as (numerator, denominator)"""
    n = len(m)
    num = Const(0)
    for i in range(n):
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
            t = mul(mul(conj(a[i]), b[j]), det(minor))
            num = add(num, t) if (i + j) % 2 == 0 else sub(num, t)
    return num, det(m)


class World:
    """abstract inputs of one solver call"""

    def __init__(self, c, ops, n, lanczos):
        self.c, self.n, self.lz = c, n, lanczos
        st = self.st = c.fresh()
        self.objs, self.names = [], []
        for i, o in enumerate(ops):
            if o[0] in "CA":
                v = c.call(c.g(PS, "AoC"), [c.g(CO, "CREATION" if o[0] == "C" else "ANNIHILATION"), Tup((Const(o[1]),))], {"spin": Const(o[2]), "orbit": Const(0)}, st)
                dg = ("A" if o[0] == "C" else "C",) + o[1:]
            else:
                v = c.call(c.g(SS, "SpinOperator"), [Const(o[1]), Tup((Const(o[2]),))], {}, st)
                dg = ("S", {"p": "m", "m": "p"}.get(o[1], o[1]), o[2])
            self.objs.append(v)
            self.names.append((o, dg))
        self.E, self.eta = Sym("GE", "float"), Sym("eta", "float")
        st.assume(cmp_num("ge", self.eta, Const(0)), True)
        keys = {}
        for o, dg in self.names:
            keys.setdefault(o)
            keys.setdefault(dg)
        self.key = {}
        for (o, dg), v in zip(self.names, self.objs):
            self.key.setdefault(o, v)
            if dg not in self.key:
                self.key[dg] = c.do("v.dagger()", st, v=v)
        lab = {k: "".join(map(str, k)) for k in keys}
        if not lanczos:
            self.H = [[cx("h%d%d" % (i, j)) for j in range(n)] for i in range(n)]
            self.vec = {k: [cx("v_%s_%d" % (lab[k], i)) for i in range(n)] for k in keys}
            self.HM = L.new_arr(st, (n, n), [x for r in self.H for x in r], owner="caller")
            self.states = self.dict(self.vec)
            self.args = dict(HM=self.HM, ES=self.states)
            self.call = "GE, HM, ES"
        else:
            self.Hs, self.vs = {}, {}
            mats, vecs = {}, {}
            for q, k in enumerate(keys):
                d = n if q % 2 == 0 or n == 1 else n - 1     # Krylov spaces of different dimension
                self.Hs[k] = [[cx("h_%s_%d%d" % (lab[k], i, j)) for j in range(d)] for i in range(d)]
                self.vs[k] = {p: [cx("v_%s_%s_%d" % (lab[k], lab[p], i)) if p != k or i == 0 else Const(0.0) for i in range(d)] for p in keys}
                mats[k] = L.new_arr(st, (d, d), [x for r in self.Hs[k] for x in r], owner="caller")
                vecs[k] = self.dict(self.vs[k])
            self.args = dict(HM=self.mk(mats), ES=self.mk(vecs))
            self.call = "GE, HM, ES"
        self.args.update(GE=self.E, eta=self.eta)

    def mk(self, d):
        st = self.st
        r = self.c.do("{}", st)
        for k, v in d.items():
            L.setitem(self.c.ip, r, self.key[k], v, self.c.ip.top(), st, None)
        st.rec(r).owner = "caller"
        return r

    def dict(self, d):
        return self.mk({k: L.new_arr(self.st, (len(v),), list(v), owner="caller") for k, v in d.items()})

    def term(self, i, j, z, sign):
        """<GS|O_i M^-1 O_j|GS>"""
        a, b = self.names[i][1], self.names[j][0]
        if self.lz:
            H, va, vb = self.Hs[b], self.vs[b][a], self.vs[b][b]
        else:
            H, va, vb = self.H, self.vec[a], self.vec[b]
        n = len(H)
        m = []
        for r in range(n):
            row = []
            for q in range(n):
                e = H[r][q] if sign == "+" else neg(H[r][q])
                if r == q:
                    e = add(e, sub(z, self.E) if sign == "+" else add(z, self.E))
                row.append(e)
            m.append(row)
        num, den = solve_form(m, va, vb)
        return div(num, den)

    def want(self, i, j, z, sign, retarded):
        if not retarded:
            return self.term(i, j, z, sign)
        x, y = self.term(i, j, z, "-"), self.term(j, i, z, "+")
        return add(x, y) if sign == "+" else sub(x, y)


C0, A0, A1, C1, AS = ("C", 0, 0), ("A", 0, 0), ("A", 1, 0), ("C", 1, 0), ("A", 0, 1)
SP, SM, SZ, S1 = ("S", "p", 0), ("S", "m", 0), ("S", "z", 0), ("S", "p", 1)
PAIRS = [(C0, A0), (A0, C0), (A0, A1), (C0, C0), (A1, AS), (SP, SM), (SZ, SZ), (S1, SZ)]
LISTS = [((A0,), (C0,)), ((A0, A1), (C0, C1)), ((A0, C1, AS), (C0, A1)), ((C0, A1), (C0, A1, C1)), ((SP, SZ), (SM, SP, S1)), ((A0, A1, C0), (A1,))]


def check(c):
    c.rule("single", "single solvers return <GS|A M^-1 B|GS> (retarded: combination of both pairings)")
    c.rule("multiple", "entry [i, j, w] belongs to the i-th first operator, j-th second operator and w-th frequency")
    c.rule("dictionary", "key (A_i, B_j) holds the values of that pair over all frequencies, no other keys")
    c.rule("inputs", "the matrices, states and lists of the caller are not modified")
    for lz in (False, True):
        for ret in (False, True):
            nm = ("R" if ret else "") + "GFSolver" + ("Lanczos" if lz else "Exact")
            F1, F2 = c.g(GF, nm + "Single"), c.g(GF, nm + "Multiple")
            for n in (1, 2, 3):
                for pi, (a, b) in enumerate(PAIRS):
                    if n == 3 and pi not in (0, 2, 7) and not c.thorough:
                        continue
                    for sign in ("+", "-", None):
                        if sign is None and pi > 1:
                            continue
                        c.run("single", "%s dimension %d sign %s operators %s, %s" % (nm, n, sign or "default", a, b), lambda: single(c, F1, a, b, n, sign, lz, ret), c.where(F1))
            for li, (As, Bs) in enumerate(LISTS):
                for n in (1, 2):
                    if n == 1 and li not in (1, 2) and not c.thorough:
                        continue
                    for nw in (1, 2, 3):
                        if nw != 2 and li not in (0, 2) and not c.thorough:
                            continue
                        for sign in ("+", "-"):
                            for struct in ("array", "dict"):
                                if li in (1, 5) and nw == 2 and n == 2:
                                    for freqs in ((0.75, -0.5), (0.25, 0.25), (-0.5, 1.0, 0.0), (0.5,)):
                                        c.run("multiple" if struct == "array" else "dictionary", "%s dimension %d, %d x %d operators (list %d), frequencies %s, sign %s" % (nm, n, len(As), len(Bs), li, freqs, sign),
                                              lambda: multiple(c, F2, As, Bs, n, len(freqs), sign, struct, lz, ret, freqs), c.where(F2))
                                c.run("multiple" if struct == "array" else "dictionary", "%s dimension %d, %d x %d operators (list %d), %d frequencies, sign %s" % (nm, n, len(As), len(Bs), li, nw, sign),
                                      lambda: multiple(c, F2, As, Bs, n, nw, sign, struct, lz, ret), c.where(F2))
            for m in sizes(c, (GF,), 4, 130, (9, 20)):
                for struct in ("array", "dict"):
                    for sign in "+-":
                        rule = "multiple" if struct == "array" else "dictionary"
                        c.run(rule, "%s dimension 1, %d frequencies, sign %s" % (nm, m, sign), lambda: multiple(c, F2, (A0, A1), (C1,), 1, m, sign, struct, lz, ret), c.where(F2))
                        c.run(rule, "%s dimension 1, %d equal frequencies, sign %s" % (nm, m, sign), lambda: multiple(c, F2, (A0,), (C1,), 1, m, sign, struct, lz, ret, [0.25 * (i // 3) for i in range(m)]), c.where(F2))
                    if m == 20 and not c.thorough:
                        continue
                    long = tuple(("A", i, 0) for i in range(m))
                    c.run(rule, "%s dimension 1, %d x 1 operators" % (nm, m), lambda: multiple(c, F2, long, (C0,), 1, 1, "+", struct, lz, ret), c.where(F2))
                    c.run(rule, "%s dimension 1, 1 x %d operators" % (nm, m), lambda: multiple(c, F2, (C1,), long, 1, 1, "-", struct, lz, ret), c.where(F2))
    return c.finish(EXPL, floor=120)


def number(c, st, v):
    f = c.freeze(v, st)
    if isinstance(f, App) and f.op == "arr" and len(f.args[1].items) == 1:
        return f.args[1].items[0]
    return f


def single(c, F, a, b, n, sign, lz, ret):
    w = World(c, [a, b], n, lz)
    st = w.st
    om = Sym("omega", "float")
    f0 = c.freeze(Tup((w.args["HM"], w.args["ES"])), st)
    if sign:
        v = c.do("F(omega, A, B, GE, HM, ES, eta=eta, sign=sign)", st, F=F, omega=om, A=w.objs[0], B=w.objs[1], sign=Const(sign), **w.args)
        z = add(om, mul(Const(1j), w.eta))
    else:
        v = c.do("F(omega, A, B, GE, HM, ES)", st, F=F, omega=om, A=w.objs[0], B=w.objs[1], **w.args)
        z = add(om, Const(0.01j))
    if c.veq(c.freeze(Tup((w.args["HM"], w.args["ES"])), st), f0, st) is not True:
        return False, "the matrices or states are modified"
    return c.veq(number(c, st, v), w.want(0, 1, z, sign or "+", ret), st), "not the documented Green's function"


def multiple(c, F, As, Bs, n, nw, sign, struct, lz, ret, freqs=None):
    ops = list(dict.fromkeys(As + Bs))
    w = World(c, ops, n, lz)
    st = w.st
    om = [Sym("omega%d" % i, "float") for i in range(nw)] if freqs is None else [Const(x) for x in freqs]
    arr = L.new_arr(st, (nw,), list(om), owner="caller")
    la = st.new(ListRec([w.objs[ops.index(x)] for x in As], owner="caller"))
    lb = st.new(ListRec([w.objs[ops.index(x)] for x in Bs], owner="caller"))
    inp = Tup((w.args["HM"], w.args["ES"], arr, la, lb))
    f0 = c.freeze(inp, st)
    v = c.do("F(om, As, Bs, GE, HM, ES, eta=eta, sign=sign, structure=struct)", st, F=F, om=arr, As=la, Bs=lb, sign=Const(sign), struct=Const(struct), **w.args)
    if c.veq(c.freeze(inp, st), f0, st) is not True:
        return False, "the inputs are modified"
    vs = []
    if struct == "array":
        f = c.freeze(v, st)
        if not (isinstance(f, App) and f.op == "arr"):
            return None, "form of the result"
        shp = tuple(x.v for x in f.args[0].items)
        if shp != (len(As), len(Bs), nw):
            return False, "shape %s" % (shp,)
    else:
        ln = c.do("len(v)", st, v=v)
        if ln != Const(len(As) * len(Bs)):
            return (False if isinstance(ln, Const) else None), "%s keys" % show(ln)
    for i, a in enumerate(As):
        for j, b in enumerate(Bs):
            if struct == "dict":
                row = c.ex("v[(a, b)]", st, v=v, a=w.objs[ops.index(a)], b=w.objs[ops.index(b)])
                r, why = c.returns(row)
                if r is not True:
                    return r, "key (%s, %s): %s" % (a, b, why)
                row = c.freeze(row.value, st)
                if not (isinstance(row, App) and row.op == "arr") or len(row.args[1].items) != nw:
                    return (False if isinstance(row, App) and row.op == "arr" else None), "value of key (%s, %s)" % (a, b)
                vals = row.args[1].items
            else:
                base = (i * len(Bs) + j) * nw
                vals = f.args[1].items[base:base + nw]
            for k in range(nw):
                z = add(om[k], mul(Const(1j), w.eta))
                e = c.veq(vals[k], w.want(ops.index(a), ops.index(b), z, sign, ret), st)
                if e is False:
                    return False, "value of the pair (%s, %s) at frequency %d" % (a, b, k)
                vs.append(e)
    return All(vs), "values"
