"""C01: equality, inequality and hashing agree and use exactly the defining attributes."""
from .common import *

EXPL = ("Abstract evaluation of __init__, __eq__, __ne__ and __hash__ of the value classes for every relation between the "
        "defining attributes of two objects (per coordinate: equal, smaller, larger, different but equal at the set precision; "
        "per discrete attribute: equal or not), dimensions 1-3, both operand orders, and against foreign operands. "
        "Coordinates are symbols: each obligation covers all numbers in that relation.")


def pairs(c, cls, dim, full):
    """yield (label, maker) where maker(st) -> (a, b, expected equality)"""
    for rels in site_relations(dim, full):
        if cls == "SiteID":
            yield rels, (), lex(rels) == "="
        elif cls in ("StateID", "NumberOperator"):
            for s, o in (("=", "="), ("<", "="), (">", "="), ("=", "<"), ("=", ">"), ("<", ">")):
                yield rels, (s, o), lex(rels) == "=" and s == o == "="
        elif cls == "AoC":
            for t in (("C", "C"), ("C", "A"), ("A", "C"), ("A", "A")):
                for s, o in (("=", "="), ("<", "="), ("=", ">")):
                    yield rels, (s, o) + t, lex(rels) == "=" and s == o == "=" and t[0] == t[1]
        elif cls == "SpinOperator":
            for t in itertools.product(OTYPES, repeat=2):
                if not full and t[0] != t[1] and rels != ("=",) * dim and t != ("p", "m"):
                    continue
                yield rels, t, lex(rels) == "=" and t[0] == t[1]


MODS = {"SiteID": QS, "StateID": QS, "AoC": PS, "NumberOperator": PS, "SpinOperator": SS}


def build(c, st, cls, name, dim, disc):
    f = c.g(MODS[cls], cls)
    site = coords(name, dim)
    if cls == "SiteID":
        return c.call(f, [site], {}, st)
    if cls in ("StateID", "NumberOperator"):
        return c.call(f, [site], {"spin": nat(st, name + "_spin"), "orbit": nat(st, name + "_orbit")}, st)
    if cls == "AoC":
        return c.call(f, [c.g(CO, "CREATION" if disc == "C" else "ANNIHILATION"), site],
                      {"spin": nat(st, name + "_spin"), "orbit": nat(st, name + "_orbit")}, st)
    return c.call(f, [Const(disc), site], {}, st)


def make_pair(c, cls, dim, rels, disc):
    st = c.fresh()
    order = coord_order("a", "b", rels)
    da = db = None
    if cls in ("StateID", "NumberOperator", "AoC"):
        order[Sym("a_spin", "int"), Sym("b_spin", "int")] = disc[0]
        order[Sym("a_orbit", "int"), Sym("b_orbit", "int")] = disc[1]
        if cls == "AoC":
            da, db = disc[2], disc[3]
    elif cls == "SpinOperator":
        da, db = disc
    with_order(st, order)
    a = build(c, st, cls, "a", dim, da)
    b = build(c, st, cls, "b", dim, db)
    return st, a, b


def eq_triple(c, st, a, b, want):
    """== != and hash of one pair, both operand orders"""
    out = []
    for x, y in ((a, b), (b, a)):
        e = c.must(c.do("bool(x == y)", st, x=x, y=y), st, want)
        n = c.must(c.do("bool(x != y)", st, x=x, y=y), st, not want)
        if e is False:
            return False, "== gives %s for objects that are %s" % (not want, "equal" if want else "different")
        if n is False:
            return False, "!= gives %s for objects that are %s" % (want, "equal" if want else "different")
        out += [e, n]
    if want:
        ha, hb = c.do("hash(x)", st, x=a), c.do("hash(x)", st, x=b)
        h = c.hash_eq(ha, hb, st)
        if h is False:
            return False, "equal objects hash different keys: %s / %s" % (show(ha)[:100], show(hb)[:100])
        out.append(h)
    return All(out), ""


def foreign(st):
    yield "int", Const(3)
    yield "None", NONE
    yield "str", Const("x")
    yield "tuple", Tup((Const(0.0),))
    yield "object of an unrelated class", Sym("foreign", "foreign")


def check(c):
    c.rule("equality", "a == b and a != b are complementary, symmetric, true exactly when the defining attributes coincide; equal objects hash the same key")
    c.rule("foreign", "comparison with an unrelated type returns False for == and True for !=, never raises")
    c.rule("bond", "bond equality: same endpoints in order (directional) or in any order (non-directional) and the same directionality")
    full = c.thorough
    for cls in ("SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator"):
        where = c.where(c.g(MODS[cls], cls))
        for dim in (1, 2, 3):
            for rels, disc, want in pairs(c, cls, dim, full and dim < 3):
                if dim == 3 and not full and disc and (rels != ("=",) * 3) and disc[0] not in ("=", "p"):
                    continue

                def fn():
                    st, a, b = make_pair(c, cls, dim, rels, disc)
                    return eq_triple(c, st, a, b, want)
                c.run("equality", "%s dim %d %s %s" % (cls, dim, " ".join(rels), " ".join(disc)), fn, where)

        def fn2():
            st = c.fresh()
            a = build(c, st, cls, "a", 1, "C" if cls == "AoC" else "p")
            b = build(c, st, cls, "b", 2, "C" if cls == "AoC" else "p")
            return eq_triple(c, st, a, b, False)
        c.run("equality", "%s of different dimension" % cls, fn2, where)
        for fname, _ in foreign(None):
            def fn3():
                st = c.fresh()
                a = build(c, st, cls, "a", 2, "C" if cls == "AoC" else "p")
                f = dict(foreign(st))[fname]
                return eq_triple(c, st, a, f, False)
            c.run("foreign", "%s against %s" % (cls, fname), fn3, where)
    # every pair of different value classes
    for x, y in itertools.permutations(("SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator", "Bond"), 2):
        def fn4():
            st = c.fresh()
            with_order(st, {})
            a = mk_any(c, st, x)
            b = mk_any(c, st, y)
            return eq_triple(c, st, a, b, False)
        c.run("foreign", "%s against %s" % (x, y), fn4, c.where(c.g(BO if x == "Bond" else MODS[x], x)))
    bonds(c, full)
    return c.finish(EXPL, floor=40)


def mk_any(c, st, cls):
    if cls == "Bond":
        return c.call(c.g(BO, "Bond"), [coords("a", 1), coords("b", 1)], {}, st)
    return build(c, st, cls, "a", 1, "C" if cls == "AoC" else "p")


def bonds(c, full):
    f = c.g(BO, "Bond")
    where = c.where(f)
    dims = (1, 2, 3) if full else (1, 2)
    for dim in dims:
        for da, db in itertools.product((True, False), repeat=2):
            for r0, r1 in bond_relations(dim, full):
                for swapped in (False, True):
                    # bond A: a -> b ;  bond B: p -> q (or q -> p), a~p by r0, b~q by r1, a and b distinct
                    def fn():
                        st = c.fresh()
                        order = {}
                        order.update(coord_order("a", "p", r0))
                        order.update(coord_order("b", "q", r1))
                        order.update(coord_order("a", "b", ("<",) * dim))
                        # fix a total order a' < a < b < b' : relations of the remaining pairs follow
                        order.update(coord_order("p", "q", ("<",) * dim))
                        order.update(coord_order("a", "q", ("<",) * dim))
                        order.update(coord_order("p", "b", ("<",) * dim))
                        with_order(st, order)
                        A = c.call(f, [coords("a", dim), coords("b", dim)], {"directional": Const(da)}, st)
                        B = c.call(f, [coords("q" if swapped else "p", dim), coords("p" if swapped else "q", dim)], {"directional": Const(db)}, st)
                        same = lex(r0) == "=" and lex(r1) == "="
                        want = same and da == db and (not swapped or not da)
                        return eq_triple(c, st, A, B, want)
                    c.run("bond", "dim %d directional %s/%s first %s second %s%s" % (dim, da, db, " ".join(r0), " ".join(r1), " swapped" if swapped else ""), fn, where)
    # the same two points in every relative position
    for dim in (1, 2, 3):
        for ab in itertools.product("=<>", repeat=dim):
            for da, db, swapped in itertools.product((True, False), (True, False), (False, True)):
                if dim == 3 and not full and da != db:
                    continue

                def fn():
                    st = c.fresh()
                    order = {}
                    order.update(coord_order("a", "p", ("=",) * dim))
                    order.update(coord_order("b", "q", ("=",) * dim))
                    for x, y in (("a", "b"), ("p", "q"), ("a", "q"), ("p", "b")):
                        order.update(coord_order(x, y, ab))
                    with_order(st, order)
                    A = c.call(f, [coords("a", dim), coords("b", dim)], {"directional": Const(da)}, st)
                    B = c.call(f, [coords("q" if swapped else "p", dim), coords("p" if swapped else "q", dim)], {"directional": Const(db)}, st)
                    want = da == db and (not swapped or not da or ab == ("=",) * dim)
                    return eq_triple(c, st, A, B, want)
                c.run("bond", "dim %d directional %s/%s same points, first to second %s%s" % (dim, da, db, " ".join(ab), " swapped" if swapped else ""), fn, where)
    for fname, _ in foreign(None):
        def fn3():
            st = c.fresh()
            a = c.call(f, [coords("a", 2), coords("b", 2)], {}, st)
            return eq_triple(c, st, a, dict(foreign(st))[fname], False)
        c.run("foreign", "Bond against %s" % fname, fn3, where)

    def fn5():
        st = c.fresh()
        a = c.call(f, [coords("a", 1), coords("b", 1)], {}, st)
        b = c.call(f, [coords("p", 2), coords("q", 2)], {}, st)
        return eq_triple(c, st, a, b, False)
    c.run("bond", "different dimension", fn5, where)


def bond_relations(dim, full):
    base = [("=",) * dim]
    for i in range(dim):
        for r in ("<", "~<", ">"):
            v = ["="] * dim
            v[i] = r
            base.append(tuple(v))
    if dim == 1 or full:
        return [(x, y) for x in base for y in base]
    return [(base[0], y) for y in base] + [(x, base[0]) for x in base[1:]]
