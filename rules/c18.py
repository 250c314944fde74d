"""C18: many-body bases."""
import itertools

from hpa.lib import dtype_kind

from .common import *

EXPL = ("Constant propagation through the three entry points (SimpleHilbertSpace, HilbertSpace, base_vectors) for every specification of a family (number of states, label collections in any order and container, every particle number, "
        "one to three subspaces), every container and sort option: the resulting integers are compared with an independent enumeration of the bit patterns; overlapping, repeated, empty, negative, non-integer specifications and impossible "
        "particle numbers have to raise on every path in every entry point; arguments are left unchanged.")


def masks(states, k):
    states = list(states)
    r = range(len(states) + 1) if k < 0 else [k]
    return [sum(1 << s for s in t) for n in r for t in itertools.combinations(states, n)]


def oracle(specs):
    out = [0]
    for states, k in specs:
        m = masks(states, k)
        out = [a | b for a in out for b in m]
    return sorted(out)


def lit(x):
    """source of a specifier"""
    return repr(x)


def ints(c, v, st):
    f = c.freeze(v, st)
    if isinstance(f, App) and f.op == "arr":
        return "array", [x.v if isinstance(x, Const) else None for x in f.args[1].items], len(f.args[0].items)
    if isinstance(f, App) and f.op == "list":
        return "list", [x.v if isinstance(x, Const) else None for x in f.args], 1
    if isinstance(f, Tup):
        return "tuple", [x.v if isinstance(x, Const) else None for x in f.items], 1
    return None, None, 0


def norm(spec):
    """(states, number) of a specifier as documented"""
    if isinstance(spec, int):
        return tuple(range(spec)), -1
    s, k = spec
    if isinstance(s, int):
        s = range(s)
    return tuple(s), k


def families(thorough):
    one = [1, 2, 3, 5]
    one += [(n, k) for n in range(1, 7 if thorough else 5) for k in range(-2, n + 1)]
    one += [[4, 2], [3, -1]]
    coll = [(0,), (5,), (0, 1), (1, 0), (2, 5, 3), [7, 1, 4], (0, 2, 4, 6), [63], (62, 0, 31), {3, 1}, (10, 40, 20, 50), [40, 3, 33, 1]]
    if thorough:
        coll += [(8, 6, 4, 2, 0), [1, 3, 5, 7, 9, 11], {9, 4, 60}, (63, 62, 61, 60, 59)]
    one += [(s, k) for s in coll for k in range(-1, len(s) + 1)]
    many = [((0, 1), 1), ([2, 3], 1)], [((0, 2), 1), ((1, 3), 1)], [(2, 1), ((2, 3, 4), 2)], [((5, 1), -1), ((2,), 1)], [3, ([5, 9, 7], 2)], [((4, 2), 0), ((3, 1), 2)], \
        [((0, 3), 1), ((1, 4), 1), ((2, 5), 1)], [((5,), 1), ((3,), 0), ((1, 7), -1)], [([1, 0], 1), [(3, 2), 1], (5,) and ((63, 40), 1)], [((2, 1), 2), ((0,), -1)], \
        [((1, 8), 1), ((0, 9, 4), 2)], [({1, 0}, 1), ({33, 62}, -1)]
    many = [list(m) for m in many]
    if thorough:
        many += [[((0, 1, 2), a), ((3, 4, 5), b)] for a in range(-1, 4) for b in range(-1, 4)]
        many += [[((0, 3, 6), 1), ((1, 4, 7), 2), ((2, 5, 8), a)] for a in range(-1, 4)]
    return one, many


REFUSED_STATES = [0, -1, -4, (), [], "abc", "4", None, 2.0, (0, 1, "2"), (0, -1), [0, 1.5], (0, 0), [1, 2, 1], (3, 3, 3), [[0, 1]], {"a": 1}]


def check(c):
    c.rule("basis", "the bit patterns with the requested particle number on the requested states, without duplicates, ascending unless sort=False, in the requested container")
    c.rule("entry-points", "space objects report the states, numbers and specifiers they were built from, and calling them is base_vectors")
    c.rule("refusal", "overlapping, repeated, invalid collections, impossible or non-integer particle numbers and unknown containers are refused by every entry point")
    c.rule("predicates", "the validity predicates agree with what the constructors accept")
    c.rule("arguments", "specifiers given as mutable collections are left as they were")
    S, H, B = (c.g(HS, n) for n in ("SimpleHilbertSpace", "HilbertSpace", "base_vectors"))
    WB = c.where(B)
    WS, WH = (c.where(c.cls_method(HS, n, "base_vectors")) for n in ("SimpleHilbertSpace", "HilbertSpace"))
    one, many = families(c.thorough)
    OPTS = [("", "array", True), ("container='array'", "array", True), ("container='list'", "list", True), ("container='tuple'", "tuple", True), ("sort=False", "array", False), ("container='list', sort=False", "list", False),
            ("container='tuple', sort=True", "tuple", True), ("container='tuple', sort=False", "tuple", False)]

    def judge(st, v, want, cont, srt):
        kind, got, nd = ints(c, v, st)
        if kind is None or any(x is None for x in got):
            return None, "basis does not fold: %s" % show(c.freeze(v, st))[:80]
        if kind != cont or nd != 1:
            return False, "returned as %s instead of %s" % (kind, cont)
        if srt and got != want:
            return False, "basis %s instead of %s" % (got[:12], want[:12])
        if not srt and sorted(got) != want:
            return False, "unsorted basis %s is not the set %s" % (got[:12], want[:12])
        if kind == "array":
            dt = getattr(st.rec(v), "dtype", None) if isinstance(v, Ref) else None
            dn = dtype_kind(dt)
            if isinstance(dt, App) and dt.op == "inferred_dtype":
                dn = dt.args[0].v
            if dn is not None and dn != "uint64":
                return False, "array of type %s instead of uint64" % dn
        return True

    def entries(specs):
        a = ", ".join(lit(s) for s in specs)
        yield "base_vectors", "B(%s%s)", a, WB, True
        yield "HilbertSpace.base_vectors", "H(%s).base_vectors(%s)", a, WH, False
        yield "HilbertSpace call", "H(%s)(%s)", a, WH, False
        if len(specs) == 1:
            s = specs[0]
            a1 = lit(s) if isinstance(s, int) else "%s, %s" % (lit(s[0]), lit(s[1]))
            yield "SimpleHilbertSpace.base_vectors", "S(%s).base_vectors(%s)", a1, WS, False
            yield "SimpleHilbertSpace call", "S(%s)(%s)", a1, WS, False

    for n in sizes(c, (HS,), 6, 63, (12, 40)):
        far = tuple((11 * i + 3) % 64 for i in range(n))
        one = one + [(n, 1), (n, n - 1), (n, 0), (n, n), (far, 1), (list(far), n - 1)] + ([(n, 2)] if n < 34 else [])
        many = many + [[(far[:n // 2], 1), (far[n // 2:], 1)] if n < 34 else [(far[:n - 3], 1), (far[n - 3:], -1)], [((s,), 1) for s in far], [((s,), 1) for s in far[2:]] + [(far[:2], 1)]]
    for i, specs in enumerate([[s] for s in one] + many):
        want = oracle([norm(s) for s in specs])
        for name, form, a, w, sep in entries(specs):
            opts = OPTS if c.thorough or len(specs) > 1 else [OPTS[0], OPTS[1 + i % 7], OPTS[1 + (i + 3) % 7]]
            if name.endswith("call"):
                opts = opts[:1] + opts[-1:]
            for o, cont, srt in opts:
                def fn():
                    st = c.fresh()
                    src = form % (a, (", " + o if o else "") if sep else o)
                    return judge(st, c.do(src, st, mod=HS, B=B, H=H, S=S), want, cont, srt)
                c.run("basis", "%s %s %s" % (name, a, o), fn, w)
    # ------------------------------------------------------------ one space asked repeatedly
    for specs in [[s] for s in ((3, 1), (4, 2), ((3, 1, 0), 2), ((2, 5, 0, 1), -1), 3)] + many[:5]:
        want = oracle([norm(s) for s in specs])
        for name, form, a, w, sep in entries(specs):
            if name.endswith("call") or sep:
                continue
            space = form.split(")")[0].split("(")[0]
            for k in range(len(OPTS)):
                def again():
                    st = c.fresh()
                    sp = c.do("K(%s)" % a, st, mod=HS, K={"H": H, "S": S}[space])
                    seq = OPTS[k:] + OPTS[:k] + OPTS[k:k + 1]
                    for j, (o, cont, srt) in enumerate(seq):
                        v = c.do("sp%s(%s)" % (".base_vectors" if j % 3 else "", o), st, sp=sp)
                        s2 = c.fresh()
                        ref = [x.v for x in c.items(c.do("K(%s).base_vectors(%s)" % (a, o), s2, mod=HS, K={"H": H, "S": S}[space]), s2)]
                        got = [x.v if isinstance(x, Const) else None for x in c.items(v, st)]
                        if None in got:
                            return None, "not folded"
                        if got != ref:
                            return False, "call %d of the same space (%s) gives %s instead of %s" % (j + 1, o or "default", got[:12], ref[:12])
                        r = judge(st, v, want, cont, srt)
                        if r is not True:
                            return r
                        # the answer belongs to the caller
                        if isinstance(v, Ref):
                            c.ex("v.reverse()" if cont == "list" else "v.fill(0)", st, v=v)
                    return True
                c.run("basis", "%s of %s asked repeatedly, beginning with %s" % (name, a, OPTS[k][0] or "default"), again, w)
    # ------------------------------------------------------------ attributes
    for s in one[::3]:
        st_, k = norm(s)

        def attrs():
            st = c.fresh()
            sp = c.do("S(%s)" % (lit(s) if isinstance(s, int) else "%s, %s" % (lit(s[0]), lit(s[1]))), st, mod=HS, S=S)
            vs = [c.veq(c.do("sp.state_number", st, sp=sp), Const(len(st_)), st)]
            t = c.freeze(c.do("sp.single_particle_states", st, sp=sp), st)
            if not isinstance(t, Tup):
                return None, show(t)[:60]
            got = [x.v if isinstance(x, Const) else None for x in t.items]
            vs.append(got == list(st_) if not (isinstance(s, tuple) and isinstance(s[0], set)) else sorted(got) == sorted(st_))
            n = c.do("sp.particle_number", st, sp=sp)
            vs.append(None if not isinstance(n, Const) else (n.v == k or n.v < 0 and k < 0))
            return All(vs), "attributes do not match the arguments"
        c.run("entry-points", "SimpleHilbertSpace(%s) attributes" % lit(s), attrs, WS)
    for specs in many[:6]:
        def hattrs():
            st = c.fresh()
            sp = c.do("H(%s)" % ", ".join(lit(s) for s in specs), st, mod=HS, H=H)
            vs = [c.veq(c.do("sp.subspace_number", st, sp=sp), Const(len(specs)), st)]
            t = c.freeze(c.do("sp.subspace_specifiers", st, sp=sp), st)
            if not isinstance(t, Tup) or len(t.items) != len(specs):
                return False, "subspace_specifiers is %s" % show(t)[:80]
            for x, s in zip(t.items, specs):
                ss, k = norm(s)
                if not isinstance(x, Tup) or len(x.items) != 2 or not isinstance(x.items[0], Tup):
                    return False, "specifier %s is not in standard form" % show(x)[:60]
                got = [y.v if isinstance(y, Const) else None for y in x.items[0].items]
                vs.append(sorted(got) == sorted(ss) and x.items[1] == Const(k))
            return All(vs), "specifiers do not match the arguments"
        c.run("entry-points", "HilbertSpace(%s) attributes" % ", ".join(lit(s) for s in specs), hattrs, WH)
    # ------------------------------------------------------------ refusals
    bad = [[x] for x in REFUSED_STATES if not isinstance(x, (tuple, list)) or len(x) != 2]
    bad += [[(x, 1)] for x in REFUSED_STATES] + [[(x, -1)] for x in REFUSED_STATES] + [[[x, 0]] for x in REFUSED_STATES]
    bad += [[(n, k)] for n in range(1, 5) for k in (n + 1, n + 7)] + [[((0, 2, 5), k)] for k in (4, 9)]
    bad += [[(4, k)] for k in (1.5, -0.5, "1", None, 2.0, (1,))] + [[((0, 1), k)] for k in (1.5, -0.5, "1", None, 1.0)]
    bad += [[(4, 2, 1)], [(4,)], [[0, 1, 2]], [((0, 1), 1, 1)]]
    bad += [[((0, 1), 1), ((1, 2), 1)], [2, ((1, 5), 1)], [((0, 1), 1), ((2, 3), 1), ((3, 4), 1)], [((0, 1), 1), ((2, 3), 1), ((4, 0), 0)], [(2, 1), (2, 1)], [3, 3], [((5,), 1), ((5,), 1)],
            [((0, 1), 1), ((2, 2), 1)], [((0, 1), 1), ((2, 3), 3)], [((0, 1), 1), ((2, -3), 1)], [((0, 1), 3), ((2, 3), 1)], [4, (3, 1)]]
    for specs in bad:
        a = ", ".join(lit(s) for s in specs)
        forms = [("base_vectors", "B(%s)" % a, WB), ("HilbertSpace", "H(%s)()" % a, WH)]
        if len(specs) == 1:
            s = specs[0]
            if isinstance(s, (tuple, list)) and len(s) == 2:
                forms.append(("SimpleHilbertSpace", "S(%s, %s)()" % (lit(s[0]), lit(s[1])), WS))
            elif not isinstance(s, (tuple, list)) or len(s) == 0:
                forms.append(("SimpleHilbertSpace", "S(%s)()" % lit(s), WS))
        for name, src, w in forms:
            c.run("refusal", "%s: %s" % (name, a), lambda: c.refuses(c.ex(src, c.fresh(), mod=HS, B=B, H=H, S=S)), w)
    for src, w in (("B(2, container=%s)", WB), ("H(2).base_vectors(container=%s)", WH), ("S(2).base_vectors(container=%s)", WS)):
        for x in ("'set'", "'Array'", "None", "''", "'generator'"):
            c.run("refusal", src % x, lambda: c.refuses(c.ex(src % x, c.fresh(), mod=HS, B=B, H=H, S=S)), w)
    # symbolic particle numbers beyond the number of states
    for src, w in (("B((4, k))", WB), ("H((4, k))()", WH), ("S(4, k)()", WS), ("B(((0, 3, 5), k))", WB), ("H(((0, 3, 5), k))()", WH), ("S((0, 3, 5), k)()", WS)):
        def sym():
            st = c.fresh()
            k = Sym("k", "int")
            st.assume(cmp_num("gt", k, Const(4 if "4" in src else 3)), True)
            return c.refuses(c.ex(src, st, mod=HS, B=B, H=H, S=S, k=k))
        c.run("refusal", src + " for every k beyond the number of states", sym, w)
    # ------------------------------------------------------------ predicates
    V, VS = c.g(HS, "is_valid_subspace_specifier"), c.g(HS, "is_valid_states_collection")
    for s in [x for x in one] + [y for m in many for y in m]:
        c.run("predicates", "valid %s" % lit(s), lambda: c.must(c.do("V(%s)" % lit(s), (st := c.fresh()), mod=HS, V=V), st, True), c.where(V))
    for m in bad:
        if len(m) == 1 and lit(m[0]) not in ("(4, '1')", "(4, None)", "((0, 1), '1')", "((0, 1), None)", "(4, (1,))"):
            c.run("predicates", "invalid %s" % lit(m[0]), lambda: c.must(c.do("V(%s)" % lit(m[0]), (st := c.fresh()), mod=HS, V=V), st, False), c.where(V))
    for s in REFUSED_STATES + [5, 1]:
        c.run("predicates", "not a collection of states: %s" % lit(s), lambda: c.must(c.do("V(%s)" % lit(s), (st := c.fresh()), mod=HS, V=VS), st, False), c.where(VS))
    for s in ((0,), [3, 1], {2, 5}, (63, 0)):
        c.run("predicates", "collection of states: %s" % lit(s), lambda: c.must(c.do("V(%s)" % lit(s), (st := c.fresh()), mod=HS, V=VS), st, True), c.where(VS))
    # ------------------------------------------------------------ arguments
    for src, w in (("B([x, 2], [y, 1])", WB), ("H([x, 2], [y, 1])()", WH), ("S(x, 2)()", WS), ("S(x, 2)(sort=False)", WS), ("B([x, -1], [y, 0], sort=False)", WB)):
        def args():
            st = c.fresh()
            x, y = c.do("[7, 2, 4]", st), c.do("[5, 0]", st)
            before = c.freeze(x, st), c.freeze(y, st)
            sp = c.do(src, st, mod=HS, B=B, H=H, S=S, x=x, y=y)
            return (c.freeze(x, st), c.freeze(y, st)) == before, "argument list changed"
        c.run("arguments", src, args, w)

    def alias():
        st = c.fresh()
        x = c.do("[7, 2, 4]", st)
        sp = c.do("S(x, 1)", st, mod=HS, S=S, x=x)
        hp = c.do("H([x, 1])", st, mod=HS, H=H, x=x)
        c.do("x.append(0)", st, x=x)
        c.do("x.insert(0, 1)", st, x=x)
        want = oracle([((7, 2, 4), 1)])
        a = judge(st, c.do("sp()", st, sp=sp), want, "array", True)
        b = judge(st, c.do("hp()", st, hp=hp), want, "array", True)
        return All(a if not isinstance(a, tuple) else a[0], b if not isinstance(b, tuple) else b[0]), "the space follows later changes of the caller's list"
    c.run("arguments", "later changes of the caller's list", alias, WS)
    return c.finish(EXPL, floor=300)
