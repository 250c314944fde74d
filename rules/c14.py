"""C14: index tables are bijections."""
from .common import *
from . import c16

EXPL = ("Abstract evaluation of IndexTable's constructor and queries over tables of 0 to 5 symbolic objects (sites, states, operators, strings, tuples; any order, distinct or repeated), given as list, tuple, "
        "generator or dictionary keys, with symbolic start value: bijection, length, iteration order, refusals with the documented errors.")


def mk(c, st, kind, i):
    """i-th object (ascending names s0 < s1 < ...)"""
    site = coords("s%d_" % i, 1)
    if kind == "SiteID":
        return c.call(c.g(QS, "SiteID"), [site], {}, st)
    if kind == "StateID":
        return c.call(c.g(QS, "StateID"), [site], {"spin": Const(1), "orbit": Const(2)}, st)
    if kind == "AoC":
        return c.call(c.g(PS, "AoC"), [otype_of(c, "C"), site], {}, st)
    if kind == "SpinOperator":
        return spin_op(c, st, "z", "s%d_" % i)
    if kind == "str":
        return Const("name%d" % i)
    return Tup((Const(i), Const(7 - i)))


def mk_number(c, st, kind, i):
    """i-th object with a concrete coordinate"""
    site = Tup((Const(0.5 * i),))
    if kind == "SiteID":
        return c.call(c.g(QS, "SiteID"), [site], {}, st)
    if kind == "StateID":
        return c.call(c.g(QS, "StateID"), [site], {"spin": Const(1), "orbit": Const(2)}, st)
    if kind == "AoC":
        return c.call(c.g(PS, "AoC"), [otype_of(c, "C"), site], {}, st)
    return mk(c, st, kind, i)


def large(c, kind, n, start):
    """many objects: numbering and lookup, both ways, and the refusals"""
    st, objs, base, out, lst = make(c, kind, [(7 * i + 3) % n if n % 7 else i for i in range(n)], start)
    r, why = c.returns(out)
    if r is not True:
        return r, why
    t, st = out.value, out.st
    for what, got, want in (("len", [c.do("len(t)", st, t=t)], [Const(n)]), ("t(o)", c.items(c.do("[t(o) for o in l]", st, t=t, l=lst), st), [add(base, Const(k)) for k in range(n)]),
                            ("query_index", c.items(c.do("[t.query_index(o) for o in l]", st, t=t, l=lst), st), [add(base, Const(k)) for k in range(n)]),
                            ("query_object", c.items(c.do("[t.query_object(b + i) for i in range(n)]", st, t=t, b=base, n=Const(n)), st), objs),
                            ("iter", c.items(c.do("[x[1] for x in t]", st, t=t), st), objs), ("objects", c.items(c.do("list(t.objects())", st, t=t), st), objs)):
        if len(got) != len(want):
            return False, "%s: %d items instead of %d" % (what, len(got), len(want))
        for k, (g, w) in enumerate(zip(got, want)):
            v = TRUE if g == w else None
            if v is None:
                v = c.veq(c.freeze(g, st), c.freeze(w, st), st)
                if v is not True:
                    return v, "%s of object %d of %d is %s instead of %s" % (what, k, n, show(g)[:60], show(w)[:60])
    vs = []
    for i, j in ((0, n - 1), (n - 2, n - 1), (n // 2, n - 1), (0, 1)):
        seq = list(range(n))
        seq[j] = seq[i]
        r = c.refuses(make(c, kind, seq, start)[3], ("ValueError",))
        if r[0] is False:
            return False, "object %d of %d repeats object %d: %s" % (j, n, i, r[1])
        vs.append(r[0])
    if kind != "str":
        mixed = st.new(ListRec(list(objs[:n - 1]) + [Const("other")], owner="caller"))
        r = c.refuses(c.ex("T(l)", st.copy(), T=c.g(IT, "IndexTable"), l=mixed), ("TypeError",))
        if r[0] is False:
            return False, "object %d of another type: %s" % (n - 1, r[1])
        vs.append(r[0])
    for e, v in (("t.query_object(i)", add(base, Const(n))), ("t.query_object(i)", add(base, Const(-1))), ("t.query_index(i)", mk_number(c, st, kind, n + 3))):
        r = c.refuses(c.ex(e, st.copy(), t=t, i=v), ("KeyError",))
        if r[0] is False:
            return False, "outside: " + r[1]
        vs.append(r[0])
    return All(vs), ""


def order_for(n):
    o = {}
    for i, j in itertools.combinations(range(n), 2):
        o[csym("s%d_" % i, 0), csym("s%d_" % j, 0)] = "<"
    return o


def make(c, kind, seq, start, form="list"):
    many = max(seq, default=0) > 6
    st = c16.fresh(c) if many else c.fresh()
    if not many:
        with_order(st, order_for(7))
    objs = [(mk_number if many else mk)(c, st, kind, i) for i in seq]
    s = {"none": None, "zero": Const(0), "three": Const(3), "neg": Const(-2), "sym": Sym("start", "int")}[start]
    kw = {} if s is None else {"start": s}
    base = Const(0) if s is None else s
    src = {"list": "T(l, **kw)", "tuple": "T(tuple(l), **kw)", "gen": "T((x for x in l), **kw)", "dict": "T({x: 0 for x in l}, **kw)", "iter": "T(iter(l), **kw)"}[form]
    src = src.replace(", **kw", ", start=s" if s is not None else "")
    lst = st.new(ListRec(objs, owner="caller"))
    out = c.ex(src, st, T=c.g(IT, "IndexTable"), l=lst, s=s if s is not None else NONE)
    return st, objs, base, out, lst


def bijection(c, kind, perm, start, form):
    st, objs, base, out, lst = make(c, kind, perm, start, form)
    r, why = c.returns(out)
    if r is not True:
        return r, why
    t, st = out.value, out.st
    n = len(objs)
    vs = []

    def need(v, why):
        if v is False:
            raise Refuted(why)
        vs.append(v)
    need(c.veq(c.do("len(t)", st, t=t), Const(n), st), "len() is not the number of objects")
    fo = [c.freeze(o, st) for o in objs]
    for k, o in enumerate(objs):
        idx = add(base, Const(k))
        other = mk(c, st, kind, perm[k])       # an equal object created independently
        for e in ("t(o)", "t.query_index(o)", "t.query_index(p)"):
            v = c.do(e, st, t=t, o=o, p=other)
            need(c.veq(v, idx, st), "%s of object %d is %s instead of %s" % (e, k, show(v), show(idx)))
        v = c.do("t.query_object(i)", st, t=t, i=idx)
        need(c.veq(c.freeze(v, st), fo[k], st), "query_object(%s) is not object %d" % (show(idx), k))
    want_idx = [add(base, Const(k)) for k in range(n)]
    for e, want in (("list(t)", [Tup(p) for p in zip(want_idx, fo)]), ("[x for x in t]", [Tup(p) for p in zip(want_idx, fo)]), ("list(t.indices())", want_idx), ("list(t.objects())", fo)):
        got = [c.freeze(x, st) for x in c.items(c.do(e, st, t=t), st)]
        if len(got) != len(want):
            return False, "%s has %d items instead of %d" % (e, len(got), n)
        for g, w in zip(got, want):
            need(c.veq(g, w, st), "%s: %s instead of %s" % (e, show(g)[:60], show(w)[:60]))
    # outside
    for bad in (add(base, Const(n)), add(base, Const(-1))):
        for meth in ("query_object",):
            s2 = st.copy()
            r = c.refuses(c.ex("t.query_object(i)", s2, t=t, i=bad), ("KeyError",))
            if r[0] is False:
                return False, "query_object of an index outside the table " + r[1]
            vs.append(r[0])
    for e in ("t.query_index(o)", "t(o)"):
        s2 = st.copy()
        r = c.refuses(c.ex(e, s2, t=t, o=mk(c, s2, kind, 6)), ("KeyError",) if n else ("KeyError", "TypeError"))
        if r[0] is False:
            return False, "query of an unknown object " + r[1]
        vs.append(r[0])
        s2 = st.copy()
        r = c.refuses(c.ex(e, s2, t=t, o=Const(4.5)), ("TypeError",) if n else ("TypeError", "KeyError"))
        if r[0] is False:
            return False, "query of an object of another type " + r[1]
        vs.append(r[0])
    for bad in (Const("0"), Const(0.0), NONE):
        s2 = st.copy()
        r = c.refuses(c.ex("t.query_object(i)", s2, t=t, i=bad), ("TypeError",))
        if r[0] is False:
            return False, "query_object(%s) %s" % (show(bad), r[1])
        vs.append(r[0])
    if st.rec(lst).elems is None or tuple(st.rec(lst).elems) != tuple(objs):
        return False, "the caller's list was modified"
    return All(vs), ""


def check(c):
    c.rule("bijection", "object k has index start + k and back; len, iteration, indices(), objects() follow the input; KeyError / TypeError outside")
    c.rule("refusal", "duplicates raise ValueError, mixed types raise TypeError, whatever the position")
    c.rule("empty", "an empty collection gives an empty table")
    W = c.where(c.g(IT, "IndexTable"))
    kinds = ("SiteID", "StateID", "AoC", "SpinOperator", "str", "tuple")
    for kind in kinds:
        for n in range(1, 5 if c.thorough else 4):
            for perm in itertools.permutations(range(n)):
                for start in ("none", "zero", "three", "neg", "sym"):
                    c.run("bijection", "%s order %s start %s" % (kind, perm, start), lambda: bijection(c, kind, perm, start, "list"), W)
        for form in ("tuple", "gen", "dict", "iter"):
            c.run("bijection", "%s from %s" % (kind, form), lambda: bijection(c, kind, (1, 0, 2), "sym", form), W)
        # duplicates at every pair of positions
        for n in (2, 3, 4):
            for i, j in itertools.combinations(range(n), 2):
                for start in ("none", "three", "sym"):
                    def dup():
                        seq = list(range(n))
                        seq[j] = seq[i]
                        st, objs, base, out, lst = make(c, kind, seq, start)
                        return c.refuses(out, ("ValueError",))
                    c.run("refusal", "%s: object %d repeats object %d of %d, start %s" % (kind, j, i, n, start), dup, W)
        if kind != "str":
            for pos in (1, 2):
                def mixed():
                    st = c.fresh()
                    with_order(st, order_for(7))
                    objs = [mk(c, st, kind, i) for i in range(3)]
                    objs[pos] = Const("other")
                    return c.refuses(c.ex("T(l)", st, T=c.g(IT, "IndexTable"), l=st.new(ListRec(objs, owner="caller"))), ("TypeError",))
                c.run("refusal", "%s: object %d of another type" % (kind, pos), mixed, W)
    for a, b in itertools.permutations(("SiteID", "AoC", "SpinOperator", "tuple", "str"), 2):
        def mixed2():
            st = c.fresh()
            with_order(st, order_for(7))
            objs = [mk(c, st, a, 0), mk(c, st, b, 1)]
            return c.refuses(c.ex("T(l, start=5)", st, T=c.g(IT, "IndexTable"), l=st.new(ListRec(objs, owner="caller"))), ("TypeError",))
        c.run("refusal", "%s then %s" % (a, b), mixed2, W)

    for n in sizes(c, (IT,), 6, 1100, (12, 40)):
        for kind in ("SiteID", "StateID", "AoC", "str", "tuple")[:5 if n < 140 else 1]:
            for start in ("none", "three", "sym")[:3 if n < 140 else 1]:
                c.run("bijection", "%s: %d objects start %s" % (kind, n, start), lambda: large(c, kind, n, start), W)

    # same site at the configured precision is a duplicate
    def near():
        st = c.fresh()
        with_order(st, {(csym("s0_", 0), csym("s1_", 0)): "~<"})
        objs = [mk(c, st, "SiteID", 0), mk(c, st, "SiteID", 1)]
        return c.refuses(c.ex("T(l)", st, T=c.g(IT, "IndexTable"), l=st.new(ListRec(objs, owner="caller"))), ("ValueError",))
    c.run("refusal", "sites equal at the configured precision", near, W)

    # objects whose class is related to the class of the table
    for a, b in itertools.permutations(("SiteID", "StateID", "AoC", "SpinOperator", "tuple", "str"), 2):
        for e in ("t.query_index(o)", "t(o)"):
            def related():
                st = c.fresh()
                with_order(st, order_for(7))
                t = c.do("T(l, start=2)", st, T=c.g(IT, "IndexTable"), l=st.new(ListRec([mk(c, st, a, 0), mk(c, st, a, 1)], owner="caller")))
                sub = c.do("isinstance(o, type(p))", st, o=mk(c, st, b, 0), p=mk(c, st, a, 0))
                return c.refuses(c.ex(e, st, t=t, o=mk(c, st, b, 0)), ("KeyError", "TypeError") if sub != FALSE else ("TypeError",))
            c.run("refusal", "%s in a table of %s: %s" % (b, a, e), related, W)
    for start in ("none", "three", "sym"):
        for form in ("list", "tuple", "gen"):
            c.run("empty", "%s start %s" % (form, start), lambda: bijection(c, "SiteID", (), start, form), W)
    return c.finish(EXPL, floor=60)
