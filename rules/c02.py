"""C02: total order of operators and states, as documented."""
from .common import *
from .c01 import MODS, build, make_pair

EXPL = ("Abstract evaluation of <, <=, >, >= of sites, states and operators for every relation between their attributes "
        "(coordinates per dimension: equal, smaller, larger, equal only at the set precision; spin, orbit, operator type). The expected relation follows from "
        "the documented order; the four operators must be mutually consistent; foreign operands must raise TypeError.")


def want_rel(cls, rels, disc):
    site = lex(rels)
    if cls == "SiteID":
        return site
    if cls in ("StateID", "NumberOperator"):
        return lex((site,) + tuple(disc))
    if cls == "AoC":
        state = lex((site,) + tuple(disc[:2]))
        ta, tb = disc[2], disc[3]
        if ta != tb:
            return "<" if ta == "C" else ">"
        return state if ta == "C" else FLIP[state]
    ta, tb = disc
    return lex(("=" if ta == tb else ("<" if ta < tb else ">"), site))


def cases(cls, dim, full):
    for rels in site_relations(dim, full):
        if cls == "SiteID":
            yield rels, ()
        elif cls in ("StateID", "NumberOperator"):
            for so in itertools.product("=<>", repeat=2):
                yield rels, so
        elif cls == "AoC":
            for t in (("C", "C"), ("C", "A"), ("A", "C"), ("A", "A")):
                for so in (("=", "="), ("<", ">"), (">", "="), ("=", "<"), ("=", ">")):
                    yield rels, so + t
        else:
            for t in itertools.product(OTYPES, repeat=2):
                if not full and t[0] != t[1] and rels[0] in ("~<", "~>"):
                    continue
                yield rels, t


def order_ok(c, st, a, b, want):
    out = []
    for x, y, w in ((a, b, want), (b, a, FLIP[want])):
        for op, yes in (("<", w == "<"), (">", w == ">"), ("<=", w != ">"), (">=", w != "<"), ("==", w == "=")):
            v = c.must(c.do("bool(x %s y)" % op, st, x=x, y=y), st, yes)
            if v is False:
                return False, "%s gives %s although the first operand is %s the second" % (op, not yes, {"<": "before", ">": "after", "=": "equal to"}[w])
            out.append(v)
    return All(out), ""


def refused(c, st, a, b):
    vs = []
    for op in ("<", ">", "<=", ">="):
        for x, y in ((a, b), (b, a)):
            s = st.copy()
            r = c.refuses(c.ex("x %s y" % op, s, x=x, y=y), ("TypeError",))
            r, why = r if isinstance(r, tuple) else (r, "")
            if r is False:
                return False, "%s %s" % (op, why)
            vs.append(r)
    return All(vs), ""


def check(c):
    c.rule("order", "for every relation of the attributes exactly the documented one of a<b, a==b, a>b holds, a<=b is not a>b, a>=b is not a<b")
    c.rule("foreign order", "ordering against an unrelated type raises TypeError")
    full = c.thorough
    for cls in ("SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator"):
        where = c.where(c.g(MODS[cls], cls))
        for dim in (1, 2, 3):
            for rels, disc in cases(cls, dim, full and dim < 3):
                if dim == 3 and not full and disc and rels != ("=",) * 3 and disc[0] != disc[1]:
                    continue

                def fn():
                    st, a, b = make_pair(c, cls, dim, rels, disc)
                    return order_ok(c, st, a, b, want_rel(cls, rels, disc))
                c.run("order", "%s dim %d %s %s" % (cls, dim, " ".join(rels), " ".join(disc)), fn, where)
        for name, mk in (("int", lambda st: Const(3)), ("None", lambda st: NONE), ("str", lambda st: Const("x")), ("unrelated object", lambda st: Sym("foreign", "foreign"))):
            def fn2():
                st = with_order(c.fresh(), {})
                a = build(c, st, cls, "a", 2, "C" if cls == "AoC" else "p")
                return refused(c, st, a, mk(st))
            c.run("foreign order", "%s against %s" % (cls, name), fn2, where)
    cl = ("SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator")
    for x, y in itertools.combinations(cl, 2):
        def fn3():
            st = with_order(c.fresh(), {})
            a = build(c, st, x, "a", 2, "C" if x == "AoC" else "p")
            b = build(c, st, y, "b", 2, "C" if y == "AoC" else "p")
            return refused(c, st, a, b)
        c.run("foreign order", "%s against %s" % (x, y), fn3, c.where(c.g(MODS[x], x)))
    return c.finish(EXPL, floor=40)
