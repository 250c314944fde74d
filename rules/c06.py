"""C06: Hermitian conjugation and conjugacy predicates."""
from .common import *
from . import c16
from .c05 import numbered, same_sequence
from .c05 import ARR, spin_order, same_site_order
from .c01 import make_pair

EXPL = ("Abstract evaluation of dagger, conjugate_of, same_state and same_site with symbolic attributes and coefficients; terms of 0 to 3 operators "
        "of every type pattern; predicates for every relation between the attributes of two operators.")


def check(c):
    c.rule("operator dagger", "dagger flips the type (creation/annihilation, p/m), keeps every other attribute, and is an involution")
    c.rule("term dagger", "components are the conjugates in reversed order, coefficient is the complex conjugate, operands unchanged")
    c.rule("predicate", "conjugate_of / same_state / same_site agree with the definition and reject foreign types")
    P, S = c.g(PS, "AoC"), c.g(SS, "SpinOperator")
    wa, wn, wt = c.where(P), c.where(c.g(PS, "NumberOperator")), c.where(c.g(PS, "ParticleTerm"))
    wso, wsi = c.where(S), c.where(c.g(SS, "SpinInteraction"))
    for t, dim in itertools.product("CA", (1, 2, 3)):
        def fn():
            st = c.fresh()
            a = aoc(c, st, t, "a", dim)
            f = c.freeze(a, st)
            d = c.do("x.dagger()", st, x=a)
            if not is_instance(c, st, d, PS, "AoC"):
                return False, "conjugate is not an operator"
            v = c.veq(desc(c, st, d), aoc_spec(c, "A" if t == "C" else "C", "a", dim), st)
            if v is False:
                return False, "conjugate is %s" % show(desc(c, st, d))
            w = c.must(c.do("x.dagger() == y", st, x=d, y=a), st, True)
            if w is False:
                return False, "conjugating twice does not give an equal operator"
            return All(v, w, c.freeze(a, st) == f), ""
        c.run("operator dagger", "AoC %s dim %d" % (t, dim), fn, wa)
    def fn():
        st = c.fresh()
        a = c.call(c.g(PS, "NumberOperator"), [coords("a", 2)], {"spin": nat(st, "a_spin"), "orbit": nat(st, "a_orbit")}, st)
        d = c.do("x.dagger()", st, x=a)
        if not is_instance(c, st, d, PS, "NumberOperator"):
            return False, "conjugate is not a number operator"
        return c.veq(c.freeze(c.do("(x.coordinate, x.spin, x.orbit)", st, x=d), st), Tup((coords("a", 2), Sym("a_spin", "int"), Sym("a_orbit", "int"))), st), "attributes changed"
    c.run("operator dagger", "NumberOperator", fn, wn)
    for t in OTYPES:
        def fn():
            st = c.fresh()
            a = spin_op(c, st, t, "a", 2)
            d = c.do("x.dagger()", st, x=a)
            if not is_instance(c, st, d, SS, "SpinOperator"):
                return False, "conjugate is not a spin operator"
            w = {"p": "m", "m": "p"}.get(t, t)
            v = c.veq(sdesc(c, st, d), Tup((Const(w), coords("a", 2))), st)
            if v is False:
                return False, "conjugate of %s is %s" % (t, show(sdesc(c, st, d)))
            v2 = c.must(c.do("x.dagger() == y", st, x=d, y=a), st, True)
            if v2 is False:
                return False, "conjugating twice does not give an equal operator"
            return All(v, v2), ""
        c.run("operator dagger", "SpinOperator %s" % t, fn, wso)
    for n in range(0, 5 if c.thorough else 4):
        for types in itertools.product("CA", repeat=n):
            for kty in (("num", "complex", "float", "int") if n < 3 else ("num",)):
                def fn():
                    st = c.fresh()
                    ops = [aoc(c, st, t, "a%d" % i) for i, t in enumerate(types)]
                    k = Sym("k", kty)
                    T = c.call(c.g(PS, "ParticleTerm"), [Tup(ops)], {"coeff": k}, st)
                    f = c.freeze(T, st)
                    d = c.do("x.dagger()", st, x=T)
                    want = [aoc_spec(c, "A" if types[i] == "C" else "C", "a%d" % i) for i in reversed(range(n))]
                    v, why = term_is(c, st, d, want, conj(k))
                    if v is not False and c.freeze(T, st) != f:
                        return False, "the term itself was modified"
                    return v, why
                c.run("term dagger", "ParticleTerm %s coefficient %s" % ("".join(types) or "empty", kty), fn, wt)
    for kind, mod, cl, w in (("particle", PS, "ParticleTerm", wt), ("spin", SS, "SpinInteraction", wsi)):
        for n in sizes(c, (mod,), 4, 130, (6, 14, 33)):
            def fn():
                st = c16.fresh(c)
                ops, _ = numbered(c, st, kind, n)
                k = Sym("k", "complex")
                T = c.call(c.g(mod, cl), [Tup(ops)], {"coeff": k}, st)
                f = c.freeze(T, st)
                d = c.do("x.dagger()", st, x=T)
                want = [c.do("x.dagger()", st, x=o) for o in reversed(ops)]
                v, why = same_sequence(c, st, kind, components(c, st, d), want)
                if v is False:
                    return v, why
                if c.freeze(T, st) != f:
                    return False, "the term itself was modified"
                return All(v, c.veq(c.do("d.coeff", st, d=d), conj(k), st)), ""
            c.run("term dagger", "%s of %d operators" % (cl, n), fn, w)
    for types in ("", "p", "z", "pm", "zy", "pmx", "mpp", "xzm"):
        for i, arr in enumerate(ARR):
            def fn():
                st = c.fresh()
                o, rank = spin_order(arr)
                with_order(st, o)
                names = ["a", "a'", "b"][:len(types)]
                ops = [spin_op(c, st, t, n) for t, n in zip(types, names)]
                k = Sym("k", "num")
                T = c.call(c.g(SS, "SpinInteraction"), [Tup(ops)], {"coeff": k}, st)
                f = c.freeze(T, st)
                d = c.do("x.dagger()", st, x=T)
                if not is_instance(c, st, d, SS, "SpinInteraction"):
                    return False, "conjugate is not a SpinInteraction"
                want = [({"p": "m", "m": "p"}.get(t, t), n) for t, n in reversed(list(zip(types, names)))]
                v, why = same_site_order(c, st, components(c, st, d), want, rank)
                if v is False:
                    return v, why
                st.order = None
                e = c.veq(c.do("x.coeff", st, x=d), conj(k), st)
                if e is False:
                    return False, "coefficient %s instead of its conjugate" % show(c.do("x.coeff", st, x=d))
                if c.freeze(T, st) != f:
                    return False, "the term itself was modified"
                return All(v, e), ""
            c.run("term dagger", "SpinInteraction %s site order %d" % (types or "empty", i), fn, wsi)
    # ------------------------------------------------------------ predicates
    for dim in (1, 2):
        for rels in site_relations(dim, False):
            for so in (("=", "="), ("<", "="), ("=", ">"), (">", "<")):
                for t in itertools.product("CA", repeat=2):
                    def fn():
                        st, a, b = make_pair(c, "AoC", dim, rels, so + t)
                        same = lex(rels + so) == "="
                        vs = []
                        for x, y in ((a, b), (b, a)):
                            for m, w in (("same_state", same), ("conjugate_of", same and t[0] != t[1])):
                                v = c.must(c.do("bool(x.%s(y))" % m, st, x=x, y=y), st, w)
                                if v is False:
                                    return False, "%s gives %s" % (m, not w)
                                vs.append(v)
                        return All(vs), ""
                    c.run("predicate", "AoC dim %d %s %s" % (dim, " ".join(rels), " ".join(so + t)), fn, wa)
            for t in itertools.product(OTYPES, repeat=2):
                if dim == 2 and rels[0] != "=" and t[0] != t[1]:
                    continue
                def fn():
                    st, a, b = make_pair(c, "SpinOperator", dim, rels, t)
                    same = lex(rels) == "="
                    vs = []
                    for x, y, p, q in ((a, b, t[0], t[1]), (b, a, t[1], t[0])):
                        for m, w in (("same_site", same), ("conjugate_of", same and {"p": "m", "m": "p"}.get(p, p) == q)):
                            v = c.must(c.do("bool(x.%s(y))" % m, st, x=x, y=y), st, w)
                            if v is False:
                                return False, "%s gives %s" % (m, not w)
                            vs.append(v)
                    return All(vs), ""
                c.run("predicate", "SpinOperator dim %d %s %s" % (dim, " ".join(rels), " ".join(t)), fn, wso)
    bad = {"int": lambda st: Const(1), "None": lambda st: NONE, "str": lambda st: Const("p"), "unrelated object": lambda st: Sym("foreign", "foreign"),
           "site": lambda st: c.call(c.g(QS, "StateID"), [coords("a", 1)], {}, st)}
    for b in list(bad) + ["other operator"]:
        for m in ("same_state", "conjugate_of"):
            def fn():
                st = c.fresh()
                y = spin_op(c, st, "p", "a") if b == "other operator" else bad[b](st)
                return c.refuses(c.ex("x.%s(y)" % m, st, x=aoc(c, st, "C", "a"), y=y), ("TypeError",))
            c.run("predicate", "AoC.%s against %s" % (m, b), fn, wa)
        for m in ("same_site", "conjugate_of"):
            def fn():
                st = c.fresh()
                y = aoc(c, st, "C", "a") if b == "other operator" else bad[b](st)
                return c.refuses(c.ex("x.%s(y)" % m, st, x=spin_op(c, st, "z", "a"), y=y), ("TypeError",))
            c.run("predicate", "SpinOperator.%s against %s" % (m, b), fn, wso)
    return c.finish(EXPL, floor=40)
