"""C08: a special mark is only put on terms of that pattern."""
from .common import *
from .c05 import operand

EXPL = ("Abstract evaluation of factories, products, conjugation and NumberOperator.toterm for every relation between the states involved: whenever the "
        "result carries the mark hopping/number/Coulomb its operators must have that pattern. check_compatibility is compared with the pattern for every "
        "type assignment and every equality partition of the states of up to four operators. Unknown marks must be refused.")


def pattern(types, eq):
    """marks satisfied; eq(i, j): states equal"""
    out = {"general"}
    if types == "CA":
        out.add("number" if eq(0, 1) else "hopping")
    if types == "CACA" and eq(0, 1) and eq(2, 3):
        out.add("Coulomb")
    return out


def marks_of(c, st, term):
    got = components(c, st, term)
    ty = ""
    for x in got:
        t = c.freeze(c.do("x.otype", st, x=x), st)
        if t == c.g(CO, "CREATION"):
            ty += "C"
        elif t == c.g(CO, "ANNIHILATION"):
            ty += "A"
        else:
            raise Undecided("operator type")

    def eq(i, j):
        a, b = [Tup(desc(c, st, got[k]).items[1:]) for k in (i, j)]
        fl = lambda t: list(t.items[0].items) + list(t.items[1:])
        r = []
        for x, y in zip(fl(a), fl(b)):
            if x == y:
                r.append(True)
                continue
            o = None
            if st.order is not None:
                o = st.order.atom_rel(x, y) if not (isinstance(x, Const) or isinstance(y, Const)) else None
            if o is None:
                d = st.decide(cmp_num("eq", x, y))
                if d is None:
                    raise Undecided("relation of states")
                r.append(d)
            else:
                r.append(effective(o) == "=")
        return all(r)
    return pattern(ty, eq), ty


def mark_ok(c, st, term):
    if not is_instance(c, st, term, PS, "ParticleTerm"):
        return (False if isinstance(term, (Ref, Const)) else None), "not a ParticleTerm"
    k = c.do("x.classification", st, x=term)
    if not isinstance(k, Const):
        return None, "mark %s undecided" % show(k)
    ok, ty = marks_of(c, st, term)
    if k.v not in ok:
        return False, "marked %r but its pattern (%s) only satisfies %s" % (k.v, ty, sorted(ok))
    v = c.must(c.do("bool(x.check_compatibility())", st, x=term), st, True)
    if v is False:
        return False, "check_compatibility rejects the library's own term"
    return All(True, v), ""


def partitions(n):
    def go(i, cur, k):
        if i == n:
            yield tuple(cur)
            return
        for b in range(k + 1):
            yield from go(i + 1, cur + [b], max(k, b + 1))
    yield from go(0, [], 0)


def check(c):
    c.rule("factory mark", "every factory result carries only a mark its operator pattern satisfies")
    c.rule("derived mark", "products, conjugates and other derived terms carry only a mark their pattern satisfies")
    c.rule("compatibility", "check_compatibility is true exactly for the pattern of the mark")
    c.rule("unknown mark", "an unknown mark is refused")
    UPDN = None
    F = lambda n: c.g(FA, n)
    two = {"HoppingFactory": {}, "CoulombFactory": {}, "PairingFactory": {"which": Const("p")}, "PairingFactory ": {"which": Const("h")}}
    for fname, extra in two.items():
        for rels in site_relations(2, False):
            for so in itertools.product("=<>", repeat=2):
                for given in (("spin0", "spin1", "orbit0", "orbit1"), ("spin0", "orbit1"), ("spin1", "orbit0"), ()):
                    if given != ("spin0", "spin1", "orbit0", "orbit1") and so != ("=", "="):
                        continue

                    def fn():
                        st = c.fresh()
                        kw = {n: nat(st, n) for n in given}
                        o = coord_order("a", "b", rels)
                        if len(given) == 4:
                            o[Sym("spin0", "int"), Sym("spin1", "int")] = so[0]
                            o[Sym("orbit0", "int"), Sym("orbit1", "int")] = so[1]
                        with_order(st, o)
                        kw.update(extra)
                        if given and len(given) < 4:
                            # one side explicit: fix it to a value different from / equal to the default
                            for n in given:
                                kw[n] = Const(1)
                        v = c.call(F(fname.strip()), [coords("a", 2), coords("b", 2)], kw, st)
                        return mark_ok(c, st, v)
                    c.run("factory mark", "%s sites %s spin/orbit %s given %s" % (fname + str(extra.get("which", "")), " ".join(rels), " ".join(so), ",".join(given)), fn, c.where(F(fname.strip())))
    for fname in ("CPFactory", "HubbardFactory"):
        for given in ((), ("orbit",)):
            def fn():
                st = c.fresh()
                v = c.call(F(fname), [coords("a", 2)], {n: nat(st, n) for n in given}, st)
                return mark_ok(c, st, v)
            c.run("factory mark", "%s given %s" % (fname, given), fn, c.where(F(fname)))

    # ------------------------------------------------------------ derived terms
    PT = c.g(PS, "ParticleTerm")
    base = {
        "hopping": lambda st: c.call(F("HoppingFactory"), [coords("a", 1), coords("b", 1)], {"coeff": Sym("k", "num")}, st),
        "number": lambda st: c.call(F("CPFactory"), [coords("a", 1)], {}, st),
        "Coulomb": lambda st: c.call(F("CoulombFactory"), [coords("a", 1), coords("b", 1)], {"coeff": Sym("k", "num")}, st),
        "Hubbard": lambda st: c.call(F("HubbardFactory"), [coords("a", 1)], {}, st),
        "pairing": lambda st: c.call(F("PairingFactory"), [coords("a", 1), coords("b", 1)], {"which": Const("p")}, st),
        "number operator term": lambda st: c.do("n.toterm()", st, n=operand_n(c, st)),
        "marked hopping": lambda st: c.call(PT, [Tup((aoc(c, st, "C", "a"), aoc(c, st, "A", "b")))], {"classification": Const("hopping")}, st),
        "marked number": lambda st: c.call(PT, [Tup((aoc(c, st, "C", "a"), aoc(c, st, "A", "a")))], {"classification": Const("number")}, st),
    }

    def operand_n(c, st):
        return c.call(c.g(PS, "NumberOperator"), [coords("a", 1)], {"spin": nat(st, "a_spin"), "orbit": nat(st, "a_orbit")}, st)
    exprs = ["t.dagger()", "t.dagger().dagger()", "t * k", "k * t", "t * t", "x * t", "t * x", "y * t", "t * y", "n * t", "t * n", "t * e", "e * t", "y * x * t",
             "t * u", "u * t", "x * y * e", "n * n", "n * k", "k * n", "x * y", "y * x"]
    for b in base:
        for e in exprs:
            def fn():
                st = c.fresh()
                o = coord_order("a", "b", ("<",))
                o.update({(Sym("a_spin", "int"), Sym("b_spin", "int")): "=", (Sym("a_orbit", "int"), Sym("b_orbit", "int")): "="})
                with_order(st, o)
                t = base[b](st)
                x, y = aoc(c, st, "C", "a"), aoc(c, st, "A", "b")
                em = c.call(PT, [Tup(())], {"coeff": Sym("ke", "num")}, st)
                u = c.call(F("CPFactory"), [coords("b", 1)], {}, st)
                v = c.do(e, st, t=t, k=Sym("k2", "num"), x=x, y=y, e=em, u=u, n=operand_n(c, st))
                return mark_ok(c, st, v)
            c.run("derived mark", "%s of a %s term" % (e, b), fn, c.where(PT))
    # ------------------------------------------------------------ check_compatibility
    for n in range(0, 6 if c.thorough else 5):
        for types in itertools.product("CA", repeat=n):
            types = "".join(types)
            for part in partitions(n):
                if n == 4 and not c.thorough and types not in ("CACA", "CCAA", "ACAC", "CAAC", "ACCA", "AACC", "CAAA", "CACC", "CCCA", "AACA", "AAAA", "CCCC"):
                    continue
                if n == 5 and types not in ("CACAC", "CACAA", "CCACA", "ACACA"):
                    continue
                for mark in ("general", "hopping", "number", "Coulomb"):
                    def fn():
                        st = c.fresh()
                        o = {}
                        k = max(part) + 1 if part else 0
                        for i, j in itertools.combinations(range(k), 2):
                            o[csym("s%d_" % i, 0), csym("s%d_" % j, 0)] = "<"
                        with_order(st, o)
                        ops = [c.call(c.g(PS, "AoC"), [otype_of(c, t), coords("s%d_" % p, 1)], {"spin": Const(0)}, st) for t, p in zip(types, part)]
                        T = c.call(PT, [Tup(ops)], {"classification": Const(mark)}, st)
                        want = mark in pattern(types, lambda i, j: part[i] == part[j])
                        v = c.must(c.do("bool(t.check_compatibility())", st, t=T), st, want)
                        return v, "check_compatibility gives %s" % (not want)
                    c.run("compatibility", "%s types %s states %s" % (mark, types, part), fn, c.where(c.cls_method(PS, "ParticleTerm", "check_compatibility")))
    # states that differ only in spin or only in orbit
    for attr in ("spin", "orbit"):
        for mark, types in (("hopping", "CA"), ("number", "CA"), ("Coulomb", "CACA")):
            for same in itertools.product((0, 1), repeat=len(types) // 2):
                def fn():
                    st = with_order(c.fresh(), {})
                    ops = []
                    for i, t in enumerate(types):
                        ops.append(c.call(c.g(PS, "AoC"), [otype_of(c, t), coords("s", 1)], {attr: Const(1 if i % 2 and not same[i // 2] else 0)}, st))
                    T = c.call(PT, [Tup(ops)], {"classification": Const(mark)}, st)
                    want = (mark == "hopping" and not same[0]) or (mark == "number" and same[0]) or (mark == "Coulomb" and all(same))
                    return c.must(c.do("bool(t.check_compatibility())", st, t=T), st, bool(want)), "check_compatibility gives %s" % (not want)
                c.run("compatibility", "%s states differing in %s %s" % (mark, attr, same), fn, c.where(c.cls_method(PS, "ParticleTerm", "check_compatibility")))
    for m in ("Hopping", "coulomb", "", None, "Number", "onsite", 0):
        def fn():
            st = c.fresh()
            return c.refuses(c.ip.run(PT, [Tup((aoc(c, st, "C", "a"), aoc(c, st, "A", "a")))], {"classification": Const(m)}, st))
        c.run("unknown mark", "ParticleTerm classification=%r" % (m,), fn, c.where(PT))
    return c.finish(EXPL, floor=40)
