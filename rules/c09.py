"""C09: fermionic matrix elements."""
from .common import *

EXPL = ("Abstract evaluation of matrix_function (with all of its kernels) and of the matrix_repr plumbing. For every occupation of the states a term acts on "
        "the remaining bits of the basis state are symbols, so one obligation covers all basis states with that occupation; the left basis is a symbolic "
        "sorted array (np.searchsorted is uninterpreted) or an explicit one. Expected: apply the operators right to left, zero unless empty/occupied, sign = parity of lower occupied states. "
        "The number of single-particle states is bounded (5; bit positions up to 63 in the wide cases), the number of operators by 4.")


def act(term, bits):
    """reference semantics on a list of 0/1 values (Const/poly); returns (sign, new bits) or None"""
    bits = list(bits)
    sign = Const(1)
    for i, t in reversed(term):
        b = bits[i]
        if not isinstance(b, Const):
            raise Undecided("occupation of an acted state is not fixed")
        if int(b.v) != (0 if t == "C" else 1):
            return None
        for x in bits[:i]:
            sign = mul(sign, sub(Const(1), scale(as01(x), 2)))
        bits[i] = Const(1 - int(b.v))
    return sign, bits


def optype(c, t):
    return c.g(CO, "CREATION" if t == "C" else "ANNIHILATION")


def mf(c, st, term, bases, **kw):
    t = st.new(ListRec([Tup((Const(i), optype(c, x))) for i, x in term], owner="caller"))
    return c.ip.run(c.g(MR, "matrix_function"), [t, bases], kw, st)


def entries_of(c, st, v, csr):
    """[(value, row, col)] and shape"""
    f = c.freeze(v, st)
    if csr:
        if isinstance(f, App) and f.op == "csr":
            d, r, k, shp = f.args
            if not all(isinstance(x, App) and x.op == "arr" for x in (d, r, k)):
                raise Undecided("sparse data")
            return list(zip(d.args[1].items, r.args[1].items, k.args[1].items)), shp
        if isinstance(f, App) and f.op == "arr":
            n, m = [x.v for x in f.args[0].items]
            el = f.args[1].items
            return [(el[i * m + j], Const(i), Const(j)) for i in range(n) for j in range(m)], f.args[0]
        if isinstance(f, (Tup, Const)):
            raise Refuted("returned %s instead of a matrix" % show(f)[:60])
        raise Undecided("form of the result: %s" % show(f)[:80])
    if isinstance(f, App) and f.op in ("arr", "csr") or isinstance(f, Const):
        raise Refuted("returned %s instead of (entries, (rows, columns))" % show(f)[:60])
    if not (isinstance(f, Tup) and len(f.items) == 2 and isinstance(f.items[1], Tup)):
        raise Undecided("form of the result: %s" % show(f)[:80])
    d, (r, k) = f.items[0], f.items[1].items
    if not all(isinstance(x, App) and x.op == "arr" for x in (d, r, k)):
        raise Undecided("data of the result")
    return list(zip(d.args[1].items, r.args[1].items, k.args[1].items)), None


def compare(c, st, ent, want):
    """want: [(value, row, col)] non-zero entries"""
    got = []
    for v, r, k in ent:
        z = c.num_eq(v, Const(0), st)
        if z is True:
            continue
        got.append((v, r, k))
    if len(got) != len(want):
        # an entry may vanish only for special coefficients
        return False, "%d non-zero elements instead of %d: %s" % (len(got), len(want), "; ".join("%s at (%s,%s)" % tuple(show(x) for x in g) for g in got)[:200])
    vs = []
    rest = list(want)
    for v, r, k in got:
        best = None
        for w in rest:
            kk = c.num_eq(k, w[2], st)
            rr = c.num_eq(r, w[1], st)
            if kk is True and (rr is not False):
                best = w
                break
        if best is None:
            return False, "element %s at row %s column %s is not expected" % (show(v), show(r), show(k))
        rest.remove(best)
        e = c.num_eq(v, best[0], st)
        if e is None:
            # the left basis is free: assumptions about it restrict no occupation
            e = c.num_eq(v, best[0], None, [(a, p) for a, p in pre_of(st) if Sym("left", "ndarray") not in atoms_in(a)])
            e = e if e is False else None
        if e is False:
            return False, "element %s at row %s column %s should be %s" % (show(v), show(r), show(k), show(best[0]))
        vs += [e, c.num_eq(r, best[1], st)]
    return All(vs), ""


def int_of(bits):
    return sum(int(b.v) << i for i, b in enumerate(bits))


def sym_left(c, term, tag, occ, n, csr, spect=None):
    """one symbolic basis state, symbolic left basis"""
    st = c.fresh()
    k = Sym("k", "num")
    bits = [Sym("p%d" % i, "bool") if spect is None or i in spect else Const(0) for i in range(n)]
    for i, v in occ.items():
        bits[i] = Const(v)
    right = L.new_arr(st, (1,), (BitsV(bits),), owner="caller")
    left = Sym("left", "ndarray")
    out = mf(c, st, term, right, left_bases=left, coeff=k, to_csr=Const(csr), special_tag=Const(tag))
    w = act(term, bits)
    if not out.ok:
        return c.returns(out)
    for v, s, n_ in out.raises:
        if not set(c.ip.exc_class_names(v, s)) & {"KeyError"}:
            return (False if not s.path else None), "raises %s" % c.ip.exc_class_names(v, s)[0]
    st = out.st
    ent, shp = entries_of(c, st, out.value, csr)
    if shp is not None:
        vs = c.veq(shp, Tup((App("getitem", (App("shape", (left,), "any"), Const(0)), "int"), Const(1))), st)
        if vs is False and isinstance(shp, Tup) and len(shp.items) == 2:
            return False, "shape %s" % show(shp)
    if w is None:
        if out.raises:
            return None, "error paths for a vanishing action"
        return compare(c, st, ent, [])
    sign, nb = w
    ket = BitsV([as01(b) for b in nb])
    row = App("searchsorted", (left, ket), "int")
    if not out.raises and tag in ("general", "hopping"):
        return False, "a state outside the left basis is not reported"
    # the element is only produced when left[row] is the new state
    r, why = compare(c, st, ent, [(mul(k, sign), row, Const(0))])
    return r, why


def explicit(c, term, tag, right, left, n, csr, kty="num"):
    """explicit constant bases"""
    st = c.fresh()
    k = Sym("k", kty)
    rb = L.new_arr(st, (len(right),), [Const(x) for x in right], owner="caller")
    kw = {"coeff": k, "to_csr": Const(csr), "special_tag": Const(tag)}
    if left is not None:
        kw["left_bases"] = L.new_arr(st, (len(left),), [Const(x) for x in left], owner="caller")
    lb = right if left is None else left
    want, out_of = [], False
    for j, ket in enumerate(right):
        w = act(term, [Const((ket >> i) & 1) for i in range(n)])
        if w is None:
            continue
        nk = int_of(w[1])
        if nk not in lb:
            out_of = True
            continue
        want.append((mul(k, w[0]), Const(lb.index(nk)), Const(j)))
    out = mf(c, st, term, rb, **kw)
    if out_of:
        return c.refuses(out, ("KeyError",))
    r, why = c.returns(out)
    if r is not True:
        return r, why
    st = out.st
    ent, shp = entries_of(c, st, out.value, csr)
    if shp is not None and c.veq(shp, Tup((Const(len(lb)), Const(len(right)))), st) is False:
        return False, "shape %s" % show(shp)
    return compare(c, st, ent, want)


def occs(states):
    states = sorted(set(states))
    for v in itertools.product((0, 1), repeat=len(states)):
        yield dict(zip(states, v))


def check(c):
    c.rule("kernel, symbolic left basis", "element = coefficient * sign at (position of the new state in the left basis, column), nothing otherwise; KeyError when absent")
    c.rule("kernel, explicit bases", "the whole matrix for explicit bases, rows by left basis, columns by right basis")
    c.rule("plumbing", "matrix_repr of operators and terms equals the action of the operators at the indices given by the table")
    W = c.where(c.g(MR, "matrix_function"))
    n = 5

    def sym(term, tag, csr=(True,), n=n, spect=None):
        for o in occs([i for i, _ in term]):
            for cs in csr:
                c.run("kernel, symbolic left basis", "%s %s occupation %s n=%d%s" % (tag, " ".join("%s%d" % (t, i) for i, t in term), o, n, "" if cs else " triplets"),
                      lambda: sym_left(c, term, tag, o, n, cs, spect), W)
    idx = (0, 2, 3) if not c.thorough else (0, 1, 2, 3, 4)
    for L_ in (1, 2, 3):
        for s in itertools.product(idx if L_ < 3 else ((0, 2, 3) if c.thorough else (1, 3)), repeat=L_):
            for t in itertools.product("CA", repeat=L_):
                sym(list(zip(s, t)), "general", (True, False) if L_ == 1 else (True,))
    for s, t in (((0, 2, 3, 4), "CCAA"), ((4, 3, 1, 0), "CCAA"), ((1, 3, 3, 1), "CACA"), ((2, 2, 4, 4), "CACA"), ((3, 1, 2, 0), "CACA"), ((3, 0, 2, 4), "ACAC")):
        sym(list(zip(s, t)), "general")
    for i, j in itertools.permutations(range(n), 2):
        sym([(i, "C"), (j, "A")], "hopping", (True, False))
    # wide integers: positions beyond 31
    wide = 64
    for i, j in ((40, 3), (3, 40), (63, 33), (33, 63), (35, 31)):
        sp = {0, 5, 20, 34, 50, 61} - {i, j}
        sym([(i, "C"), (j, "A")], "hopping", (True,), wide, sp)
        sym([(i, "C"), (j, "A")], "general", (True,), wide, sp)
        sym([(i, "A")], "general", (True,), wide, sp)
    # diagonal kernels and explicit bases
    full3 = list(range(8))
    sub1, sub2 = [1, 2, 4], [3, 5, 6]
    ex = []
    for i in range(3):
        ex.append(("number", [(i, "C"), (i, "A")]))
        for j in range(3):
            ex.append(("Coulomb", [(i, "C"), (i, "A"), (j, "C"), (j, "A")]))
            if i != j:
                ex.append(("hopping", [(i, "C"), (j, "A")]))
    for tag, term in ex:
        for right, left in ((full3, None), (full3, full3), (sub1, None), (sub2, None), (sub1, sub2), (sub2, full3), (sub1, full3), ([2, 6, 7], [1, 2, 5, 6, 7])):
            for cs in (True, False):
                if not cs and (right, left) not in ((full3, None), (sub2, full3)):
                    continue
                c.run("kernel, explicit bases", "%s %s right %s left %s%s" % (tag, " ".join("%s%d" % (t, i) for i, t in term), right, left, "" if cs else " triplets"),
                      lambda: explicit(c, term, tag, right, left, 3, cs), W)
    gen = []
    for L_ in (1, 2):
        for s in itertools.product(range(3), repeat=L_):
            for t in itertools.product("CA", repeat=L_):
                gen.append(list(zip(s, t)))
    for s, t in (((0, 1, 2), "CCA"), ((2, 1, 0), "CAA"), ((0, 0, 1, 1), "CACA"), ((2, 0, 1, 2), "CACA"), ((0, 1, 2, 0), "CCAA"), ((2, 1, 0), "CCC")):
        gen.append(list(zip(s, t)))
    for term in gen:
        for right, left in ((full3, None), (sub1, full3), (sub1, sub2), (sub2, sub1), ([0, 3, 5, 6], [1, 2, 4, 7])):
            if len(term) == 2 and left in (sub1,) and not c.thorough:
                continue
            c.run("kernel, explicit bases", "general %s right %s left %s" % (" ".join("%s%d" % (t, i) for i, t in term), right, left),
                  lambda: explicit(c, term, "general", right, left, 3, True), W)
    # diagonal kernels for symbolic occupations of the spectators (left basis = right basis)
    def diag(tag, term, n, spect=None):
        for o in occs([i for i, _ in term]):
            def fn():
                st = c.fresh()
                k = Sym("k", "num")
                b = [[Sym("%s%d" % (p, i), "bool") if spect is None or i in spect else Const(0) for i in range(n)] for p in "pq"]
                for i, v in o.items():
                    b[0][i] = b[1][i] = Const(v)
                right = L.new_arr(st, (2,), [BitsV(x) for x in b], owner="caller")
                out = mf(c, st, term, right, coeff=k, to_csr=TRUE, special_tag=Const(tag))
                r, why = c.returns(out)
                if r is not True:
                    return r, why
                ent, shp = entries_of(c, out.st, out.value, True)
                w = act(term, b[0])
                return compare(c, out.st, ent, [] if w is None else [(k, Const(0), Const(0)), (k, Const(1), Const(1))])
            c.run("kernel, symbolic left basis", "%s %s occupation %s n=%d" % (tag, " ".join("%s%d" % (t, i) for i, t in term), o, n), fn, W)
    for i in range(n):
        diag("number", [(i, "C"), (i, "A")], n)
        for j in range(n):
            diag("Coulomb", [(i, "C"), (i, "A"), (j, "C"), (j, "A")], n)
    for i, j in ((40, 3), (33, 63), (63, 63), (32, 31)):
        diag("number", [(i, "C"), (i, "A")], wide, {0, 5, 20, 34, 50})
        diag("Coulomb", [(i, "C"), (i, "A"), (j, "C"), (j, "A")], wide, {0, 5, 20, 34, 50} - {i, j})
    # many basis states, many operators
    for m in sizes(c, (MR, PS), 6, 130, (20, 40)):
        nb = max(m - 1, 1).bit_length()
        full, odd = list(range(m)), [x for x in range(2 * m) if bin(x).count("1") % 2][:m]
        for tag, term in (("hopping", [(nb - 1, "C"), (0, "A")]), ("hopping", [(0, "C"), (nb - 2, "A")]), ("general", [(nb - 1, "C"), (1, "A")]), ("general", [(nb - 1, "A")]), ("number", [(1, "C"), (1, "A")]),
                          ("Coulomb", [(0, "C"), (0, "A"), (nb - 1, "C"), (nb - 1, "A")]), ("general", [(0, "C"), (0, "A"), (nb - 1, "C"), (2, "A")])):
            for right, left in ((full, list(range(1 << nb))), (full[::-1][:m // 2][::-1], list(range(1 << nb)))) + (((full, None),) if tag in ("number", "Coulomb") or m == 1 << nb else ()):
                c.run("kernel, explicit bases", "%s %s, %d of %d states" % (tag, " ".join("%s%d" % (t, i) for i, t in term), len(right), len(left or right)), lambda: explicit(c, term, tag, right, left, nb + 1, True), W)
        long = [((3 * i) % 4, "C" if j else "A") for i in range(m) for j in (0, 1)][:m]
        pairs = [(i // 2 % 3, "CA"[i % 2]) for i in range(m)]
        for what, term in (("alternating", long), ("number pairs", pairs), ("ending in a creation", pairs + [(3, "C")])):
            c.run("kernel, explicit bases", "general, %d operators, %s" % (len(term), what), lambda: explicit(c, term, "general", list(range(16)), None, 4, True), W)
    plumbing(c)
    return c.finish(EXPL, floor=60)


def plumbing(c):
    PT, A, N = c.g(PS, "ParticleTerm"), c.g(PS, "AoC"), c.g(PS, "NumberOperator")
    full3 = list(range(8))
    sub = [1, 2, 4]

    def setup():
        st = c.fresh()
        # three states; the table order differs from the sort order
        o = {}
        names = ("s0", "s1", "s2")
        for (i, x), (j, y) in itertools.combinations(enumerate(names), 2):
            o[csym(x, 0), csym(y, 0)] = "<"
        with_order(st, o)
        S = c.g(QS, "StateID")
        perm = (2, 0, 1)       # index k of the table belongs to state perm[k]
        states = [c.call(S, [coords(names[p], 1)], {}, st) for p in perm]
        table = c.call(c.g(IT, "IndexTable"), [st.new(ListRec(states, owner="caller"))], {}, st)
        idx = {p: k for k, p in enumerate(perm)}
        return st, table, idx, names

    def run(kind, ops, right, left, csr, newk=False):
        st, table, idx, names = setup()
        term = [(idx[s], t) for s, t in ops]
        rb = L.new_arr(st, (len(right),), [Const(x) for x in right], owner="caller")
        kw = {"to_csr": Const(csr)}
        if left is not None:
            kw["left_bases"] = L.new_arr(st, (len(left),), [Const(x) for x in left], owner="caller")
        lb = right if left is None else left
        k = Sym("k", "num")
        if kind == "AoC":
            x = c.call(A, [optype(c, ops[0][1]), coords(names[ops[0][0]], 1)], {}, st)
            k = Const(1)
        elif kind == "NumberOperator":
            x = c.call(N, [coords(names[ops[0][0]], 1)], {}, st)
            k = Const(1)
        else:
            os_ = [c.call(A, [optype(c, t), coords(names[s], 1)], {}, st) for s, t in ops]
            x = c.call(PT, [Tup(os_)], {"coeff": k, "classification": Const(kind)}, st)
            if newk:
                k = Sym("k2", "num")
                kw["coeff"] = k
        want, out_of = [], False
        for j, ket in enumerate(right):
            w = act(term, [Const((ket >> i) & 1) for i in range(3)])
            if w is None:
                continue
            nk = int_of(w[1])
            if nk not in lb:
                out_of = True
                continue
            want.append((mul(k, w[0]), Const(lb.index(nk)), Const(j)))
        out = c.ip.meth(x, "matrix_repr", [table, rb], kw, st)
        if out_of:
            return c.refuses(out, ("KeyError",))
        r, why = c.returns(out)
        if r is not True:
            return r, why
        ent, shp = entries_of(c, out.st, out.value, csr)
        if shp is not None and c.veq(shp, Tup((Const(len(lb)), Const(len(right)))), out.st) is False:
            return False, "shape %s" % show(shp)
        return compare(c, out.st, ent, want)
    cases = []
    for s in range(3):
        cases.append(("NumberOperator", [(s, "C"), (s, "A")]))
        for t in "CA":
            cases.append(("AoC", [(s, t)]))
        cases.append(("number", [(s, "C"), (s, "A")]))
        for r in range(3):
            cases.append(("Coulomb", [(s, "C"), (s, "A"), (r, "C"), (r, "A")]))
            if r != s:
                cases.append(("hopping", [(s, "C"), (r, "A")]))
            cases.append(("general", [(s, "C"), (r, "C")]))
            cases.append(("general", [(s, "A"), (r, "C")]))
    cases += [("general", [(0, "C"), (1, "C"), (2, "A"), (0, "A")]), ("general", [(2, "C"), (1, "A"), (0, "A")]), ("general", [])]
    for kind, ops in cases:
        where = c.where(c.cls_method(PS, kind if kind in ("AoC", "NumberOperator") else "ParticleTerm", "matrix_repr"))
        for right, left in ((full3, None), (sub, full3), (sub, None), (full3, full3)):
            if kind == "NumberOperator" and left is not None:
                continue
            for csr in (True, False):
                if not csr and left is not None:
                    continue
                for newk in ((False, True) if kind not in ("AoC", "NumberOperator") and (right, left) == (full3, None) and csr else (False,)):
                    c.run("plumbing", "%s %s right %s left %s%s%s" % (kind, " ".join("%s%d" % (t, i) for i, t in ops), right, left, "" if csr else " triplets", " new coefficient" if newk else ""),
                          lambda: run(kind, ops, right, left, csr, newk), where)
