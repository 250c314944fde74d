"""C30: sites at the same decimal position are identified however computed, others distinguished."""
import math
from fractions import Fraction

from .common import *
from .c16 import fresh as constant

EXPL = ("Constant propagation (IEEE double semantics) through the constructors, comparisons, hashes and look-ups of sites, states, operators, bonds, index tables and lattices. Coordinates are decimal numbers with at most as many digits as the "
        "configured precision, each in several floating-point spellings (quotient, product, scaled product, accumulated sum, decimal literal, neighbouring doubles, integer types); all spellings of a position have to be identified and spellings of "
        "positions that differ by one unit or more distinguished, in every coordinate, at every place on the line listed and for every precision listed.")


def spellings(k, p):
    """doubles that denote k / 10**p up to rounding error"""
    u = 10 ** p
    d = k / u
    out = {d, k * 10.0 ** -p, (3 * k) / (3.0 * u), (k / 3) / u * 3, (k / 7) * 7 / u, (d - 0.3) + 0.3, (d + 1.1) - 1.1, d / 3 * 3, 0.1 * (10 * d), math.sqrt(abs(d)) ** 2 * (1 if d >= 0 else -1), float(Fraction(k, u))}
    if k % 3 == 0:
        out.add(k // 3 / u + k // 3 / u + k // 3 / u)
        out.add(3 * (k // 3 / u))
    out = {x for x in out if abs(x - d) <= 1e-12 * max(1.0, abs(d))}
    out |= {math.nextafter(d, math.inf), math.nextafter(d, -math.inf), d + (1e-14 if abs(d) < 10 else 0.0), d - (1e-14 if abs(d) < 10 else 0.0)}
    if k == 0:
        out |= {1e-17, -1e-17, -0.0, 6.1e-17, -1.2e-16}
    return sorted(out)


def values(k, p):
    out = [Const(x) for x in spellings(k, p)]
    if k % 10 ** p == 0:
        out.append(Const(k // 10 ** p))
    return out


MAKE = {"SiteID": "SiteID(%s)", "StateID": "StateID(%s, 1, 2)", "AoC": "AoC(1, %s, 1, 2)", "AoC annihilation": "AoC(0, %s, 0, 0)", "NumberOperator": "NumberOperator(%s, 1)", "SpinOperator": "SpinOperator('p', %s)",
        "Bond": "Bond(%s, ORIGIN)", "Bond end": "Bond(ORIGIN, %s)", "Bond undirected": "Bond(%s, ORIGIN, directional=False)"}


def check(c):
    c.rule("identified", "all floating-point spellings of a decimal position give equal objects with equal hashes that order neither way")
    c.rule("distinguished", "positions that differ by one unit of the last configured digit or more give unequal objects, ordered by the coordinate")
    c.rule("lookup", "index tables find an object however its coordinates were computed, and no other")
    c.rule("algebra", "operators at the same position are recognised as such: same state, same site, conjugation, normal ordering")
    c.rule("lattice", "a lattice finds its sites however their coordinates were computed")
    env0 = {n: c.g(m, n) for n, m in {"SiteID": QS, "StateID": QS, "AoC": PS, "NumberOperator": PS, "SpinOperator": SS, "Bond": BO, "IndexTable": IT, "ParticleTerm": PS, "Lattice": LA}.items()}
    env0["np"] = ExtV("numpy")

    def state(p, env):
        st = constant(c)
        if p != 4:
            for m in (QS, BO):
                c.do("f(p)", st, f=c.g(m, "set_float_point_precision"), p=Const(p))
        return st

    def where(name):
        return c.where(env0[name.split()[0]])
    ks = {4: sorted(set([0, 1, 2, 3, 6, 7, 12, 29, 58, 93, 113, 169, 1000, 2500, 3333, 4999, 5000, 5001, 5700, 6667, 9999, 10000, 10001, 11000, 14142, 25000, 33000, 57000, 99999, 100000, 123456, 1000003, 1234567] +
                        list(range(100, 3000, 29 if c.thorough else 137)))),
          2: [0, 1, 3, 7, 29, 57, 58, 99, 100, 101, 110, 113, 115, 229, 435, 1001], 0: [0, 1, 2, 7, 100], 1: [0, 1, 3, 7, 11, 29, 57], 6: [0, 1, 9, 33, 1009, 57, 570000, 999999, 1000000, 1000001, 1100000, 5700003],
          3: [0, 1, 3, 9, 57, 570, 999, 1001, 1009, 4350]}
    if c.thorough:
        ks[4] = sorted(set(ks[4]) | set(range(0, 20000, 53)))
        ks[5] = list(range(0, 300000, 2971))
        ks[6] = sorted(set(ks[6]) | set(range(0, 3000000, 29017)))
    # positions around every number the modules concerned mention (changes of the treatment at some magnitude)
    around = {abs(v) for v in constants(c, (QS, BO, PS, SS)) if 1e-4 <= abs(v) <= 1e5}
    for v in sorted(around)[:40 if c.thorough else 12]:
        ks[4] = sorted(set(ks[4]) | {round(v * 10 ** 4) + d for d in (-1, 0, 1, 3, 5003)})
    far = sorted({abs(v) for v in constants(c, (QS, BO)) if 1e5 < abs(v) <= 1e9} | {1e5, 2e6})
    for v in far:
        for k0 in (round(v * 10 ** 4) + 2500, -round(v * 10 ** 4) - 2500):
            for name in ("SiteID", "StateID", "AoC", "SpinOperator", "NumberOperator", "Bond", "Bond end"):
                def apart():
                    env = dict(env0)
                    st = state(4, env)
                    env["ORIGIN"] = Tup([Const(0.25), Const(0.25)])

                    def one(k):
                        env["q"] = Tup([Const(k / 10 ** 4), Const(1.5)])
                        return c.do(MAKE[name] % "q", st, **env)
                    a = one(k0)
                    if c.do("a == b", st, a=a, b=one(k0)) is not TRUE:
                        return False, "the same position %r is not identified" % (k0 / 10 ** 4)
                    for step in (1000, 2500, 5000, 10000, -2500, -5000):
                        e = c.do("(a == b, b == a, a != b)", st, a=a, b=one(k0 + step))
                        if e != Tup((FALSE, FALSE, TRUE)):
                            if any(x in (TRUE, FALSE) and x != y for x, y in zip(e.items, (FALSE, FALSE, TRUE))):
                                return False, "%r and %r are identified at precision 4" % (k0 / 10 ** 4, (k0 + step) / 10 ** 4)
                            return None, "not decided"
                    return True, ""
                c.run("distinguished", "%s far out, k=%d" % (name, k0), apart, where(name))
    turn = 0
    for p, numbers in ks.items():
        for k0 in numbers:
            for k in {k0, -k0}:
                vals = values(k, p)
                short = k0 not in (0, 3, 29, 57, 570, 5700, 10000, 10001)
                turn += 1
                some = list(MAKE) if not short or c.thorough else ["SiteID", "Bond", list(MAKE)[1 + turn % 8]]
                for name in dict.fromkeys(some):
                    src = MAKE[name]
                    for dim in (1,) if short else (1, 2, 3):
                        for place in range(dim):
                            def same():
                                env = dict(env0)
                                st = state(p, env)
                                env["ORIGIN"] = Tup([Const(0.25)] * dim)
                                rest = [Const(1.5)] * dim
                                objs = []
                                for v in vals:
                                    q = list(rest)
                                    q[place] = v
                                    env["q"] = Tup(q)
                                    objs.append(c.do(src % "q", st, **env))
                                a = objs[vals.index(Const(k / 10 ** p))]
                                ha = c.do("hash(a)", st, a=a)
                                for v, b in zip(vals, objs):
                                    e = c.do("(a == b, b == a, a != b)", st, a=a, b=b)
                                    if e != Tup((TRUE, TRUE, FALSE)):
                                        if any(x in (TRUE, FALSE) and x != y for x, y in zip(e.items, (TRUE, TRUE, FALSE))):
                                            return False, "%s and %s are not identified at precision %d" % (show(vals[vals.index(Const(k / 10 ** p))]), repr(v.v), p)
                                        return None, "not decided"
                                    h = c.hash_eq(ha, c.do("hash(b)", st, b=b), st)
                                    if h is not True:
                                        return h, "hash of %r differs" % v.v
                                    if not name.startswith("Bond") and c.do("(a < b, a > b, a <= b, a >= b)", st, a=a, b=b) != Tup((FALSE, FALSE, TRUE, TRUE)):
                                        return False, "%r is ordered against %r" % (k / 10 ** p, v.v)
                                return True, ""
                            c.run("identified", "%s k=%d precision=%d dim=%d place=%d" % (name, k, p, dim, place), same, where(name))
                            if place and short:
                                continue

                            def other():
                                env = dict(env0)
                                st = state(p, env)
                                env["ORIGIN"] = Tup([Const(0.25)] * dim)
                                rest = [Const(1.5)] * dim
                                def one(v):
                                    q = list(rest)
                                    q[place] = v
                                    env["q"] = Tup(q)
                                    return c.do(src % "q", st, **env)
                                a = one(Const(k / 10 ** p))
                                for step in (1, 2, 10 ** p, 7 * 10 ** p + 1):
                                    for v in values(k + step, p)[:: 3 if not short else 6]:
                                        b = one(v)
                                        e = c.do("(a == b, b == a, a != b)", st, a=a, b=b)
                                        if e != Tup((FALSE, FALSE, TRUE)):
                                            if any(x in (TRUE, FALSE) and x != y for x, y in zip(e.items, (FALSE, FALSE, TRUE))):
                                                return False, "%r and %r are identified at precision %d" % (k / 10 ** p, v.v, p)
                                            return None, "not decided"
                                        if not name.startswith(("Bond", "AoC annihilation")) and c.do("(a < b, b > a, b < a)", st, a=a, b=b) != Tup((TRUE, TRUE, FALSE)):
                                            return False, "%r does not come before %r" % (k / 10 ** p, v.v)
                                return True, ""
                            c.run("distinguished", "%s k=%d precision=%d dim=%d place=%d" % (name, k, p, dim, place), other, where(name))
    # ---------------------------------------------------------------- tables and algebra
    for k in (0, 3, 29, 57, 5700, 10000, -5700, 11000, 12345):
        vals = values(k, 4)
        near = values(k + 1, 4) + values(k - 1, 4)
        for dim in (1, 2, 3):
            def at(v, st):
                return Tup([v] + [Const(0.5)] * (dim - 1))

            for name in ("SiteID", "StateID", "SpinOperator", "AoC"):
                def look():
                    env = dict(env0)
                    st = state(4, env)
                    for i, v in enumerate((Const(k / 10 ** 4), near[0], Const(77.5))):
                        env["q"] = at(v, st)
                        env["o%d" % i] = c.do(MAKE[name] % "q", st, **env)
                    env["t"] = c.do("IndexTable([o2, o1, o0])", st, **env)
                    for v in vals:
                        env["q"] = at(v, st)
                        r = c.do("t(%s)" % (MAKE[name] % "q"), st, **env)
                        if r != Const(2):
                            return (False if isinstance(r, Const) else None), "%r is found at %s" % (v.v, show(r))
                    env["q"] = at(Const((k + 2) / 10 ** 4), st)
                    return c.refuses(c.ex("t(%s)" % (MAKE[name] % "q"), st, **env), ("KeyError",))
                c.run("lookup", "%s k=%d dim=%d" % (name, k, dim), look, where(name))

            def algebra():
                env = dict(env0)
                st = state(4, env)
                env["q"] = at(Const(k / 10 ** 4), st)
                for v in vals:
                    env["r"] = at(v, st)
                    e = c.do("(AoC(1, q).same_state(AoC(0, r)), AoC(1, q).conjugate_of(AoC(0, r)), SpinOperator('p', q).same_site(SpinOperator('z', r)), SpinOperator('p', q).conjugate_of(SpinOperator('m', r)), "
                             "AoC(0, r).dagger() == AoC(1, q), NumberOperator(q) == NumberOperator(r), ParticleTerm((AoC(1, q), AoC(0, r)), classification='number').check_compatibility())", st, **env)
                    if e != Tup([TRUE] * 7):
                        return (False if FALSE in e.items else None), "operators at %r and %r: %s" % (k / 10 ** 4, v.v, show(e))
                for v in near:
                    env["r"] = at(v, st)
                    e = c.do("(AoC(1, q).same_state(AoC(0, r)), AoC(1, q).conjugate_of(AoC(0, r)), SpinOperator('p', q).same_site(SpinOperator('z', r)), SpinOperator('p', q).conjugate_of(SpinOperator('m', r)), "
                             "AoC(0, r).dagger() == AoC(1, q), NumberOperator(q) == NumberOperator(r))", st, **env)
                    if e != Tup([FALSE] * 6):
                        return (False if TRUE in e.items else None), "operators at %r and %r: %s" % (k / 10 ** 4, v.v, show(e))
                return True, ""
            c.run("algebra", "k=%d dim=%d" % (k, dim), algebra, c.where(env0["AoC"]))

            def normal():
                env = dict(env0)
                st = state(4, env)
                env["q"] = at(Const(k / 10 ** 4), st)
                for v in vals:
                    env["r"] = at(v, st)
                    out = c.ex("ParticleTerm.normalize([AoC(0, q), AoC(1, r)])", st.copy(), **env)
                    r, why = c.refuses(out, ("SwapFermionError",))
                    if r is not True:
                        return r, "an annihilator at %r is moved through the creator at %r: %s" % (k / 10 ** 4, v.v, why)
                env["r"] = at(near[0], st)
                return c.returns(c.ex("ParticleTerm.normalize([AoC(0, q), AoC(1, r)])", st, **env))
            c.run("algebra", "normal ordering k=%d dim=%d" % (k, dim), normal, c.where(c.cls_method(PS, "ParticleTerm", "normalize")))
    # ---------------------------------------------------------------- lattices
    WL = c.where(env0["Lattice"])
    for dim in (1, 2, 3):
        for k in (0, 3, 29, 5700, 9999, 12345):
            def lattice():
                env = dict(env0)
                st = state(4, env)
                env["o"] = c.do("Lattice(np.array([[0.25] * %d, [%r] + [0.5] * %d]), 2.5 * np.identity(%d))" % (dim, k / 10 ** 4, dim - 1, dim), st, **env)
                for v in vals_of(k):
                    env["v"] = v
                    for e, want in (("o.getIndex(np.array([v] + [0.5] * %d))" % (dim - 1), Const(1)), ("o.in_cluster(np.array([v] + [0.5] * %d))" % (dim - 1), TRUE),
                                    ("o.in_cluster(np.array([v + 0.001] + [0.5] * %d))" % (dim - 1), FALSE), ("o.getIndex(np.array([v - 5.0] + [0.5] * %d), fold=True)" % (dim - 1), Const(1))):
                        r = c.do(e, st, **env)
                        if r != want:
                            return (False if isinstance(r, Const) else None), "%s is %s for v = %r" % (e, show(r), v.v)
                return True, ""
            c.run("lattice", "dim=%d k=%d" % (dim, k), lattice, WL)
    return c.finish(EXPL, floor=300)


def vals_of(k):
    return [v for v in values(k, 4) if isinstance(v.v, float)]
