"""C11: Schwinger-fermion representation."""
from .common import *
from . import c16
from .c10 import MAT

EXPL = ("Abstract evaluation of Schwinger() of every spin operator type in 1-3 dimensions and of spin terms of 1 to 3 (4 in the thorough tier) operators of every type combination, on equal and different "
        "sites in both site orders, with symbolic coefficient and sites. The resulting terms, as a multiset of (operators, coefficient), are compared with the expansion of the 2x2 matrices in the (up, down) basis.")

UP, DOWN = 1, 0


def entries(t):
    out = []
    for i, a in enumerate((UP, DOWN)):
        for j, b in enumerate((UP, DOWN)):
            if MAT[t][i][j] != 0:
                out.append((a, b, MAT[t][i][j]))
    return out


def match(c, st, v, want):
    """v: iterable of terms; want: [(ops description list, coefficient)]"""
    got = c.items(v, st)
    if len(got) != len(want):
        return False, "%d fermion terms instead of %d" % (len(got), len(want))
    rest = list(want)
    vs = []
    for x in got:
        if not is_instance(c, st, x, PS, "ParticleTerm"):
            return (False if isinstance(x, (Ref, Const, Tup)) else None), "an element of the result is not a ParticleTerm"
        d = [desc(c, st, o) for o in components(c, st, x)]
        hit = None
        for w in rest:
            if len(w[0]) == len(d) and All([c.veq(p, q, st) for p, q in zip(d, w[0])]) is True:
                hit = w
                break
        if hit is None:
            return False, "unexpected operators %s" % " ".join(show(p) for p in d)
        rest.remove(hit)
        k = c.do("x.coeff", st, x=x)
        e = c.veq(k, hit[1], st)
        if e is False:
            return False, "coefficient %s instead of %s for %s" % (show(k), show(hit[1]), " ".join(show(p) for p in d))
        vs.append(e)
        r = c.must(c.do("bool(x.check_compatibility())", st, x=x), st, True)
        vs.append(r)
        if r is False:
            return False, "a resulting term carries a mark its operators do not satisfy"
    return All(vs), ""


def two(c, t, a, b, site):
    return [Tup((otype_of(c, "C"), site, Const(a), Const(0))), Tup((otype_of(c, "A"), site, Const(b), Const(0)))]


def check(c):
    c.rule("operator", "Schwinger() of an operator: sum of c+_a M_ab c_b over the non-zero entries, on its own site, orbit 0")
    c.rule("term", "Schwinger() of a term: product of the representations in order, the coefficient exactly once")
    WO, WT = c.where(c.cls_method(SS, "SpinOperator", "Schwinger")), c.where(c.cls_method(SS, "SpinInteraction", "Schwinger"))
    for t in OTYPES:
        for dim in (1, 2, 3):
            def f1():
                st = with_order(c.fresh(), {})
                x = spin_op(c, st, t, "s", dim)
                return match(c, st, c.do("x.Schwinger()", st, x=x), [(two(c, t, a, b, coords("s", dim)), Const(v)) for a, b, v in entries(t)])
            c.run("operator", "%s dim %d" % (t, dim), f1, WO)
    for n in (1, 2, 3, 4):
        pats = {1: [(0,)], 2: [(0, 1), (1, 0), (0, 0)], 3: [(0, 1, 2), (2, 1, 0), (1, 0, 1), (0, 0, 0), (0, 1, 1)], 4: [(0, 1, 0, 1), (3, 1, 0, 2), (0, 1, 2, 2), (1, 0, 0, 0)]}[n]
        for sites in pats:
            for ts in itertools.product(OTYPES, repeat=n):
                if n >= 3 and not c.thorough and (ts[0] > ts[1] or "x" not in ts):
                    continue
                if n == 4 and (len(set(ts)) < 3 or not c.thorough and (ts[1:] not in (("x", "p", "m"), ("z", "m", "p"), ("p", "x", "z")))):
                    continue

                def f2():
                    st = c.fresh()
                    o = {}
                    for i, j in itertools.combinations(range(max(sites) + 1), 2):
                        o[csym("s%d_" % i, 0), csym("s%d_" % j, 0)] = "<"
                    with_order(st, o)
                    k = Sym("k", "num")
                    x = c.call(c.g(SS, "SpinInteraction"), [Tup(spin_op(c, st, t, "s%d_" % s) for s, t in zip(sites, ts))], {"coeff": k}, st)
                    seq = [(c.do("(o.otype, o.coordinate)", st, o=o_)) for o_ in components(c, st, x)]
                    f = [tuple(c.freeze(y, st).items) for y in seq]
                    want = []
                    for comb in itertools.product(*[entries(y[0].v) for y in f]):
                        ops, kk = [], k
                        for (ty, site), (a, b, v) in zip(f, comb):
                            ops += two(c, ty.v, a, b, site)
                            kk = mul(kk, Const(v))
                        want.append((ops, kk))
                    before = c.freeze(x, st)
                    v = c.do("x.Schwinger()", st, x=x)
                    r = match(c, st, v, want)
                    if r[0] is True and c.freeze(x, st) != before:
                        return False, "the spin term itself is modified"
                    return r
                c.run("term", "%s" % " ".join("%s@%d" % (t, s) for s, t in zip(sites, ts)), f2, WT)
    for n in sizes(c, (SS, PS), 5, 70, (6, 12)):
        for ts in ("pm" * n, "ppm" * n, "p" * n):
            def long():
                st = c16.fresh(c)
                k = Sym("k", "num")
                at = [Tup((Const(0.5 * ((2 * i) % 5)),)) for i in range(n)]
                x = c.call(c.g(SS, "SpinInteraction"), [Tup(c.call(c.g(SS, "SpinOperator"), [Const(t), s], {}, st) for t, s in zip(ts, at))], {"coeff": k}, st)
                seq = [c.freeze(c.do("(o.otype, o.coordinate)", st, o=o), st).items for o in components(c, st, x)]
                ops, kk = [], k
                for ty, site in seq:
                    (a, b, v), = entries(ty.v)
                    ops += two(c, ty.v, a, b, site)
                    kk = mul(kk, Const(v))
                return match(c, st, c.do("x.Schwinger()", st, x=x), [(ops, kk)])
            c.run("term", "%d operators %s..." % (n, ts[:3]), long, WT)
    return c.finish(EXPL, floor=30)
