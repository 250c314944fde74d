"""C05: products keep operand order and multiply coefficients."""
from .common import *
from . import c16

EXPL = ("Abstract evaluation of __mul__/__rmul__ for every pair of operand kinds; attributes of operators and all coefficients are symbols, "
        "so one obligation covers every operator and every coefficient. Operator sequences of terms have length 0 to 3.")


def operand(c, st, kind, name):
    """-> (value, expected operator descriptions, expected coefficient)"""
    if kind in ("AoC C", "AoC A"):
        t = kind[-1]
        return aoc(c, st, t, name), [aoc_spec(c, t, name)], Const(1.0)
    if kind == "number operator":
        v = c.call(c.g(PS, "NumberOperator"), [coords(name, 1)], {"spin": nat(st, name + "_spin"), "orbit": nat(st, name + "_orbit")}, st)
        return v, [aoc_spec(c, "C", name), aoc_spec(c, "A", name)], Const(1.0)
    if kind.startswith("term"):
        types = kind.split()[1] if " " in kind else ""
        ops = [aoc(c, st, t, name + str(i)) for i, t in enumerate(types)]
        k = Sym(name + "_coeff", "num")
        v = c.call(c.g(PS, "ParticleTerm"), [st.new(ListRec(ops, owner="caller"))], {"coeff": k}, st)
        return v, [aoc_spec(c, t, name + str(i)) for i, t in enumerate(types)], k
    ty = kind.split()[-1]
    k = Sym(name + "_" + ty, ty)
    return k, [], k


PK = ("AoC C", "AoC A", "number operator", "term", "term CA", "term AC", "term CCA", "number int", "number float", "number complex", "number npfloat")


def particle(c, x, y):
    st = c.fresh()
    a, ao, ak = operand(c, st, x, "a")
    b, bo, bk = operand(c, st, y, "b")
    before = [(v, c.freeze(v, st)) for v in (a, b)]
    r = c.do("x * y", st, x=a, y=b)
    v, why = term_is(c, st, r, ao + bo, mul(ak, bk))
    if v is not False and not unchanged(c, st, before):
        return False, "an operand was modified"
    if isinstance(r, Ref) and r in (a, b):
        return False, "the product is one of its operands"
    return v, why


def spin_operand(c, st, kind, name, rel=None):
    if kind.startswith("spin"):
        t = kind.split()[1]
        return spin_op(c, st, t, name), [(t, name)], Const(1.0)
    if kind.startswith("interaction"):
        types = kind.split()[1] if " " in kind else ""
        names = [name, name + "'", name][:len(types)] if len(types) < 3 else [name, name + "'", name]
        ops = [spin_op(c, st, t, n) for t, n in zip(types, names)]
        k = Sym(name + "_coeff", "num")
        v = c.call(c.g(SS, "SpinInteraction"), [Tup(ops)], {"coeff": k}, st)
        return v, list(zip(types, names)), k
    ty = kind.split()[-1]
    k = Sym(name + "_" + ty, ty)
    return k, [], k


SK = ("spin x", "spin p", "interaction", "interaction z", "interaction pm", "interaction zxy", "number int", "number float", "number complex")


def spin_order(arr):
    """total order of the site symbols a, a', b, b' given as a list of groups of coinciding sites"""
    o = {}
    rank = {n: i for i, grp in enumerate(arr) for n in grp}
    for x, y in itertools.combinations(sorted(rank), 2):
        o[csym(x, 0), csym(y, 0)] = "<" if rank[x] < rank[y] else (">" if rank[x] > rank[y] else "=")
    return o, rank


ARR = ([["a"], ["a'"], ["b"], ["b'"]], [["b'"], ["b"], ["a'"], ["a"]], [["a", "b"], ["a'", "b'"]], [["b", "a'"], ["a", "b'"]],
       [["a", "a'", "b", "b'"]], [["a'"], ["b"], ["a"], ["b'"]])


def same_site_order(c, st, got, want, rank):
    """got: values; want: list of (type, site name) in product order"""
    if len(got) != len(want):
        return False, "%d operators instead of %d" % (len(got), len(want))
    by = {}
    for t, n in want:
        by.setdefault(rank[n], []).append(t)
    have = {}
    for x in got:
        d = sdesc(c, st, x)
        k = d.items[1].items[0]
        n = next((n for n in rank if csym(n, 0) == k), None)
        if n is None:
            return None, "unknown site"
        t = d.items[0]
        if not isinstance(t, Const):
            return None, "unknown type"
        have.setdefault(rank[n], []).append(t.v)
    if have != by:
        return False, "operators on the same site: %s instead of %s" % (have, by)
    return True, ""


def spin(c, x, y, arr):
    st = c.fresh()
    o, rank = spin_order(arr)
    with_order(st, o)
    a, ao, ak = spin_operand(c, st, x, "a")
    b, bo, bk = spin_operand(c, st, y, "b")
    before = [(v, c.freeze(v, st)) for v in (a, b)]
    r = c.do("x * y", st, x=a, y=b)
    if not is_instance(c, st, r, SS, "SpinInteraction"):
        return (False if isinstance(r, (Ref, Const)) else None), "result is not a SpinInteraction"
    v, why = same_site_order(c, st, components(c, st, r), ao + bo, rank)
    if v is False:
        return v, why
    st.order = None
    e = c.veq(c.do("x.coeff", st, x=r), mul(ak, bk), st)
    if e is False:
        return False, "coefficient %s instead of %s" % (show(c.do("x.coeff", st, x=r)), show(mul(ak, bk)))
    if not unchanged(c, st, before):
        return False, "an operand was modified"
    return All(v, e), ""


def numbered(c, st, kind, n, shift=0):
    """n operators with concrete coordinates: (operators, descriptions)"""
    if kind == "particle":
        ty = ["CA"[(i * i + i // 3) % 2] for i in range(n)]
        at = [Tup((Const(0.5 * ((5 * i + shift) % 7)), Const(1.0))) for i in range(n)]
        return [c.call(c.g(PS, "AoC"), [otype_of(c, t), x], {"spin": Const(i % 2)}, st) for i, (t, x) in enumerate(zip(ty, at))], list(zip(ty, at))
    ty = [OTYPES[(i + i // 5) % 5] for i in range(n)]
    at = [Tup((Const(0.5 * ((5 * i + shift) % 3)), Const(1.0))) for i in range(n)]
    return [c.call(c.g(SS, "SpinOperator"), [Const(t), x], {}, st) for t, x in zip(ty, at)], list(zip(ty, at))


def same_sequence(c, st, kind, got, want):
    """the operators `want`, in order (spin operators: in order on every site)"""
    got = [c.freeze(x, st) for x in got]
    want = [c.freeze(x, st) for x in want]
    if len(got) != len(want):
        return False, "%d operators instead of %d" % (len(got), len(want))
    if kind == "spin":
        site = lambda f: next((v for k, v in ((a.items[0], a.items[1]) for a in f.args[1:] if isinstance(a, Tup) and len(a.items) == 2) if k == Const("_site_id")), None) if isinstance(f, App) else None
        if any(site(f) is None for f in got + want):
            return (True if got == want else None), "operators in another form"
        for s in set(map(site, want)) | set(map(site, got)):
            a, b = [f for f in got if site(f) == s], [f for f in want if site(f) == s]
            if a != b:
                return False, "operators on site %s: %s instead of %s" % (show(s)[:60], [show(x)[:80] for x in a][:4], [show(x)[:80] for x in b][:4])
        return True, ""
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            v = c.veq(a, b, st)
            return (v, "operator %d is %s instead of %s" % (i, show(a)[:90], show(b)[:90])) if v is not True else (True, "")
    return True, ""


def long_product(c, kind, n, m):
    """terms of n and m operators; m None: a number"""
    st = c16.fresh(c)
    T = c.g(PS, "ParticleTerm") if kind == "particle" else c.g(SS, "SpinInteraction")
    a, _ = numbered(c, st, kind, n)
    b, _ = numbered(c, st, kind, m or 0, 3)
    k, l = Sym("k", "num"), Sym("l", "num")
    x = c.call(T, [st.new(ListRec(a, owner="caller"))], {"coeff": k}, st)
    y = c.call(T, [st.new(ListRec(b, owner="caller"))], {"coeff": l}, st) if m is not None else l
    before = [(v, c.freeze(v, st)) for v in (x, y)]
    vs = []
    for e, ops in (("x * y", a + b), ("y * x", b + a)):
        s2 = st.copy()
        r = c.do(e, s2, x=x, y=y)
        v, why = same_sequence(c, s2, kind, components(c, s2, r), ops)
        if v is False:
            return v, e + ": " + why
        w = c.veq(c.do("r.coeff", s2, r=r), mul(k, l), s2)
        if w is False:
            return False, e + ": coefficient " + show(c.do("r.coeff", s2, r=r))
        if not unchanged(c, s2, before):
            return False, "an operand was modified"
        vs += [v, w]
    return All(vs), ""


def check(c):
    c.rule("particle product", "components = components(left) + components(right), coefficient = product, operands unchanged")
    c.rule("spin product", "per site the operators keep the order of the product, coefficient = product, operands unchanged")
    c.rule("refusal", "a product with an unsupported operand raises TypeError")
    wp, ws = c.where(c.g(PS, "ParticleTerm")), c.where(c.g(SS, "SpinInteraction"))
    for x, y in itertools.product(PK, repeat=2):
        if x.startswith("number ") and y.startswith("number ") and "operator" not in x + y:
            continue
        if x == y == "number operator" and False:
            continue
        c.run("particle product", "%s * %s" % (x, y), lambda: particle(c, x, y), wp)
    for x, y in itertools.product(SK, repeat=2):
        if x.startswith("number") and y.startswith("number"):
            continue
        two = not (x.startswith("number") or y.startswith("number"))
        for i, arr in enumerate(ARR if two or c.thorough else ARR[1:3]):
            c.run("spin product", "%s * %s, site order %d" % (x, y, i), lambda: spin(c, x, y, arr), ws)
    for kind, mod, w in (("particle", PS, wp), ("spin", SS, ws)):
        for n in sizes(c, (mod,), 4, 130, (6, 14, 33)):
            for m in (None, 0, 1, 2, n):
                c.run(kind + " product", "terms of %d and %s operators" % (n, m if m is not None else "a number"), lambda: long_product(c, kind, n, m), w)
    bad = {"str": lambda st: Const("x"), "None": lambda st: NONE, "tuple": lambda st: Tup(()), "unrelated object": lambda st: Sym("foreign", "foreign"),
           "spin operator": lambda st: spin_op(c, st, "x", "s"),
           "spin term": lambda st: c.call(c.g(SS, "SpinInteraction"), [Tup((spin_op(c, st, "x", "s"),))], {}, st),
           "site": lambda st: c.call(c.g(QS, "SiteID"), [coords("s", 1)], {}, st)}
    mine = {"AoC": lambda st: aoc(c, st, "C", "a"), "number operator": lambda st: operand(c, st, "number operator", "a")[0],
            "particle term": lambda st: operand(c, st, "term CA", "a")[0]}
    for m, b in itertools.product(mine, bad):
        for sw in (False, True):
            def fn():
                st = c.fresh()
                x, y = mine[m](st), bad[b](st)
                if sw:
                    x, y = y, x
                return c.refuses(c.ex("x * y", st, x=x, y=y), ("TypeError",))
            c.run("refusal", "%s with %s%s" % (m, b, " on the left" if sw else ""), fn, wp)
    sm = {"spin operator": lambda st: spin_op(c, st, "z", "a"), "spin term": lambda st: spin_operand(c, st, "interaction pm", "a")[0]}
    for m, b in itertools.product(sm, [k for k in bad if not k.startswith("spin")]):
        for sw in (False, True):
            def fn():
                st = with_order(c.fresh(), spin_order(ARR[0])[0])
                x, y = sm[m](st), bad[b](st)
                if sw:
                    x, y = y, x
                return c.refuses(c.ex("x * y", st, x=x, y=y), ("TypeError",))
            c.run("refusal", "%s with %s%s" % (m, b, " on the left" if sw else ""), fn, ws)
    return c.finish(EXPL, floor=40)
