"""C15: bond direction semantics."""
import re

from .common import *

EXPL = ("Abstract evaluation of Bond's constructor, accessors, flip, oppositeTo, length, displacement, azimuth and textual forms for symbolic endpoints in 1 to 3 dimensions, every relation between the "
        "endpoint coordinates (equal, smaller, larger, different below the precision), directional or not, endpoints given as tuple, list or array: the returned forms are compared with displacement p1 - p0, "
        "its Euclidean norm and arctan2 angles, and every operation that needs a direction has to raise on every path for a non-directional bond.")

DIRECTED = ("b.getDisplace()", "b.getDisplace(ndigits=3)", "b.getDisplace(2)", "b.getAzimuth()", "b.getAzimuth(radian=True)", "b.getAzimuth(ndigits=2)", "b.flip()", "b.oppositeTo(b)", "b.oppositeTo(d)")


def bond(c, st, a, b, dim, directional=True, form="tuple", default=False):
    pa, pb = coords(a, dim), coords(b, dim)
    src = {"tuple": ("pa", "pb"), "list": ("list(pa)", "list(pb)"), "array": ("np.array(pa)", "np.array(pb)"), "mixed": ("list(pa)", "np.array(pb)")}[form]
    kw = "" if default else ", directional=d"
    return c.do("B(p0=%s, p1=%s%s)" % (src + (kw,)) if form != "list" else "B(%s, %s%s)" % (src + (kw,)), st, mod=BO, B=c.g(BO, "Bond"), pa=pa, pb=pb, d=Const(directional))


def forms(dim, full):
    return [f for f in ("tuple", "list", "array", "mixed")] if full else ["tuple"]


def vec(c, st, v):
    """elements of a one-dimensional array value"""
    f = c.freeze(v, st)
    if isinstance(f, App) and f.op == "arr" and len(f.args[0].items) == 1:
        return list(f.args[1].items)
    if isinstance(f, (Tup,)):
        return list(f.items)
    if isinstance(f, App) and f.op == "list":
        return list(f.args)
    return None


def same_vec(c, st, v, want, what):
    got = vec(c, st, v)
    if got is None:
        return None, "%s is %s" % (what, show(c.freeze(v, st))[:80])
    if len(got) != len(want):
        return False, "%s has %d components" % (what, len(got))
    r = All([c.veq(x, y, st) for x, y in zip(got, want)])
    return r, "%s is (%s), expected (%s)" % (what, ", ".join(show(x) for x in got), ", ".join(show(x) for x in want))


def angle_eq(c, st, v, dr, dim, radian, ndigits):
    """azimuth of displacement dr"""
    k = Const(1.0) if radian else Const(180 / 3.141592653589793)
    rnd = (lambda x: x) if ndigits is None else (lambda x: c.do("np.around(x, n)", st, mod=BO, x=x, n=Const(ndigits)))
    if dim == 1:
        neg_ = cmp_num("lt", dr[0], Const(0))
        d = st.decide(neg_)
        if d is None:
            return None, "sign of the displacement not fixed"
        if not d:
            return c.veq(v, Const(0.0), st), "azimuth of a bond along +x is %s" % show(v)
        ok = [c.veq(v, rnd(mul(k, Const(s * 3.141592653589793))), st) for s in (1, -1)]
        return Any(ok), "azimuth of a bond along -x is %s" % show(v)
    at = lambda y, x: App("atan2", (y, x), "float")
    if dim == 2:
        return c.veq(v, rnd(mul(k, at(dr[1], dr[0]))), st), "azimuth is %s" % show(v)
    got = vec(c, st, v)
    if got is None or len(got) != 2:
        return (None if got is None else False), "azimuth in three dimensions is %s" % show(c.freeze(v, st))[:80]
    rho = func1("sqrt", add(mul(dr[0], dr[0]), mul(dr[1], dr[1])))
    want = [rnd(mul(k, at(rho, dr[2]))), rnd(mul(k, at(dr[1], dr[0])))]
    return All([c.veq(x, w, st) for x, w in zip(got, want)]), "polar and azimuth angle are %s" % ", ".join(show(x) for x in got)


def check(c):
    c.rule("displace", "endpoints are those given; displacement, length, azimuth refer to p1 - p0; rounding as requested")
    c.rule("flip", "flipping swaps the endpoints and keeps the direction; opposite exactly when endpoints are exchanged")
    c.rule("undirected", "operations that need a direction raise NotImplementedError for a non-directional bond; equality and hash ignore the order")
    c.rule("text", "repr and str show the endpoints under their labels, in order, and the directionality")
    B = c.g(BO, "Bond")
    W = lambda m: c.where(c.cls_method(BO, "Bond", m))
    for dim in (1, 2, 3):
        rels_all = site_relations(dim, c.thorough)
        for rels in rels_all:
            for directional in (True, False):
                for form in forms(dim, rels in (("<",) * dim, (">",) * dim, ("=",) * dim)):
                    def geom():
                        st = with_order(c.fresh(), coord_order("a", "b", rels))
                        b = bond(c, st, "a", "b", dim, directional, form)
                        pa, pb = coords("a", dim).items, coords("b", dim).items
                        dr = [sub(y, x) for x, y in zip(pa, pb)]
                        vs = []

                        def need(r):
                            r, why = r
                            if r is False:
                                raise Refuted(why)
                            vs.append(r)
                        for i, p in enumerate((pa, pb)):
                            need(same_vec(c, st, c.do("b.endpoints[i]", st, b=b, i=Const(i)), p, "endpoint %d" % i))
                        need((c.veq(c.do("len(b.endpoints)", st, b=b), Const(2), st), "number of endpoints"))
                        need((c.must(c.do("bool(b.directional)", st, b=b), st, directional), "directional is not as given"))
                        L = func1("sqrt", c_sum([mul(x, x) for x in dr]))
                        need((c.veq(c.do("b.getLength()", st, b=b), L, st), "length is not the norm of the displacement"))
                        need((c.veq(c.do("b.getLength(n)", st, b=b, n=Const(3)), c.do("np.around(x, 3)", st, mod=BO, x=L), st), "rounded length"))
                        need((c.veq(c.do("b.getLength(ndigits=0)", st, b=b), c.do("np.around(x, 0)", st, mod=BO, x=L), st), "length rounded to 0 digits"))
                        if directional:
                            need(same_vec(c, st, c.do("b.getDisplace()", st, b=b), dr, "displacement"))
                            for nd in (2, 0):
                                need(same_vec(c, st, c.do("b.getDisplace(ndigits=n)", st, b=b, n=Const(nd)), [c.do("np.around(x, n)", st, mod=BO, x=x, n=Const(nd)) for x in dr], "rounded displacement"))
                            for rad in (False, True):
                                for nd in (None, 3, 0):
                                    v = c.do("b.getAzimuth(radian=r, ndigits=n)", st, b=b, r=Const(rad), n=Const(nd))
                                    need(angle_eq(c, st, v, dr, dim, rad, nd))
                            need(angle_eq(c, st, c.do("b.getAzimuth()", st, b=b), dr, dim, False, None))
                        return All(vs), ""
                    c.run("displace", "dim %d %s %s %s" % (dim, rels, "directional" if directional else "undirected", form), geom, W("getDisplace" if directional else "getLength"))

            def flip():
                st = with_order(c.fresh(), coord_order("a", "b", rels))
                b = bond(c, st, "a", "b", dim)
                f = c.do("b.flip()", st, b=b)
                if not is_instance(c, st, f, BO, "Bond"):
                    return (False if f == NONE or isinstance(f, (Const, Tup)) else None), "flip returns %s" % show(f)[:60]
                vs = []
                for i, p in ((0, "b"), (1, "a")):
                    r, why = same_vec(c, st, c.do("f.endpoints[i]", st, f=f, i=Const(i)), coords(p, dim).items, "endpoint %d of the flipped bond" % i)
                    if r is False:
                        return False, why
                    vs.append(r)
                vs.append(c.must(c.do("bool(f.directional)", st, f=f), st, True))
                same = all(effective(r) == "=" for r in rels)
                for e, want in (("b.oppositeTo(f)", True), ("f.oppositeTo(b)", True), ("b == f.flip()", True), ("b == f", same), ("b != f", not same), ("b.oppositeTo(b)", same)):
                    v = c.must(c.do("bool(%s)" % e, st, b=b, f=f), st, want)
                    if v is False:
                        return False, "%s is %s" % (e, not want)
                    vs.append(v)
                # an undirected bond between the same endpoints is not opposite
                u = bond(c, st, "b", "a", dim, False)
                v = c.must(c.do("bool(b.oppositeTo(u))", st, b=b, u=u), st, False)
                if v is False:
                    return False, "a non-directional bond is reported as opposite"
                vs.append(v)
                return All(vs), ""
            c.run("flip", "dim %d %s" % (dim, rels), flip, W("flip"))

            def und():
                st = with_order(c.fresh(), coord_order("a", "b", rels))
                u = bond(c, st, "a", "b", dim, False)
                w = bond(c, st, "b", "a", dim, False)
                d = bond(c, st, "a", "b", dim, True, default=True)
                vs = [c.must(c.do("bool(u == w)", st, u=u, w=w), st, True), c.must(c.do("bool(u != w)", st, u=u, w=w), st, False)]
                if False in vs:
                    return False, "exchanging the endpoints of a non-directional bond changes equality"
                h = c.hash_eq(c.do("hash(x)", st, x=u), c.do("hash(x)", st, x=w), st)
                if h is False:
                    return False, "exchanging the endpoints of a non-directional bond changes the hash"
                vs.append(h)
                v = c.must(c.do("bool(u == d)", st, u=u, d=d), st, False)
                if v is False:
                    return False, "a non-directional bond equals a directional one"
                vs.append(v)
                for e in DIRECTED:
                    s2 = st.copy()
                    r, why = c.refuses(c.ex(e, s2, b=u, d=d), ("NotImplementedError",))
                    if r is False:
                        return False, "%s of a non-directional bond %s" % (e, why)
                    vs.append(r)
                return All(vs), ""
            c.run("undirected", "dim %d %s" % (dim, rels), und, W("__init__"))

        # different endpoints are not opposite
        for which in (0, 1):
            for rel in ("<", ">"):
                def nopp():
                    st = c.fresh()
                    o = {}
                    # bonds a->b and (b'->a) or (b->a') where one coordinate of the primed endpoint differs
                    for i in range(dim):
                        o[csym("a", i), csym("b", i)] = "<"
                        q = rel if i == dim - 1 else "="
                        o[csym("b" if which == 0 else "a", i), csym("p", i)] = q
                        o[csym("a" if which == 0 else "b", i), csym("p", i)] = "<" if which == 0 else ">"
                    with_order(st, o)
                    b = bond(c, st, "a", "b", dim)
                    x = bond(c, st, "p", "a", dim) if which == 0 else bond(c, st, "b", "p", dim)
                    v = c.must(c.do("bool(b.oppositeTo(x))", st, b=b, x=x), st, False)
                    return v, "oppositeTo ignores an endpoint"
                c.run("flip", "dim %d: endpoint %d differs (%s)" % (dim, which, rel), nopp, W("oppositeTo"))
        for foreign in (Const(1), Const("b"), NONE, Tup((coords("b", dim), coords("a", dim)))):
            def fo():
                st = with_order(c.fresh(), coord_order("a", "b", ("<",) * dim))
                return c.refuses(c.ex("b.oppositeTo(x)", st, b=bond(c, st, "a", "b", dim), x=foreign), ("TypeError",))
            c.run("flip", "dim %d: oppositeTo(%s)" % (dim, show(foreign)[:30]), fo, W("oppositeTo"))

        for directional in (True, False):
            for form in forms(dim, True):
                def text():
                    st = with_order(c.fresh(), coord_order("a", "b", ("<",) * dim))
                    b = bond(c, st, "a", "b", dim, directional, form)
                    names = [(csym(n, i), n + str(i)) for n in "ab" for i in range(dim)]
                    t = text_template(c.freeze(c.do("repr(b)", st, b=b), st), names)
                    if "\x01?\x01" in t:
                        return None, "unresolved value in %r" % t
                    ids = re.findall("\x01(.*?)\x01", t)
                    want = ["%s%d" % (n, i) for n in "ab" for i in range(dim)]
                    if ids != want:
                        return False, "repr shows %s" % t.replace("\x01", "")
                    if not re.search("p0 *= *[^=]*\x01a0\x01", t) or not re.search("p1 *= *[^=]*\x01b0\x01", t) or str(directional) not in t.split("directional")[-1]:
                        return False, "repr labels: %s" % t.replace("\x01", "")
                    # human-readable form
                    v = c.do("str(b)", st, b=b)
                    dr = [sub(csym("b", i), csym("a", i)) for i in range(dim)]
                    A = lambda xs: App("arr", (Tup((Const(dim),)), Tup(xs)), "ndarray")
                    nm = [(A([csym("a", i) for i in range(dim)]), "P0"), (A([csym("b", i) for i in range(dim)]), "P1"), (c.freeze(c.do("b.getLength()", st, b=b), st), "Length")]
                    if directional:
                        nm += [(c.freeze(c.do("b.getAzimuth()", st, b=b), st), "Azimuth"), (A(dr), "Displace")]
                    s = text_template(c.freeze(v, st), nm)
                    for val, n in nm:
                        if isinstance(val, Const):
                            continue
                        line = [l for l in s.split("\n") if l.startswith(n)]
                        if "\x01%s\x01" % n not in s and "\x01?\x01" not in s:
                            return False, "str(bond) does not show %s" % n
                        if len(line) == 1 and "\x01%s\x01" % n not in line[0]:
                            return (None if "\x01?\x01" in line[0] else False), "str(bond) shows %r" % line[0].replace("\x01", "*")
                    if not directional and s.count("Undefined") < 2:
                        return None, "azimuth and displacement are not marked undefined"
                    return True, ""
                c.run("text", "dim %d %s %s" % (dim, "directional" if directional else "undirected", form), text, W("__repr__"))
    return c.finish(EXPL, floor=100)


def c_sum(xs):
    acc = Const(0)
    for x in xs:
        acc = add(acc, x)
    return acc
