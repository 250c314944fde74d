"""C03: normal ordering."""
from .common import *
from . import c16

EXPL = ("Abstract evaluation of ParticleTerm.normalize on operator sequences whose members are symbolic except for the relation "
        "between their states (every weak order of the states) and their type (every assignment): length 0 to 4 (5 in the thorough tier). "
        "Compared with the specification: sorted permutation, number of inversions, error exactly when an annihilator stands "
        "before a creator of the same state.")


def weak_orders(n):
    seen = set()
    for r in itertools.product(range(n), repeat=n):
        ranks = sorted(set(r))
        k = tuple(ranks.index(x) for x in r)
        if k not in seen:
            seen.add(k)
            yield k


def levels_of(gaps):
    """state levels (site, spin, orbit) in ascending order; each gap says which attribute decides"""
    out = [(0, 5, 5)]
    for g in gaps:
        x, s, o = out[-1]
        out.append({"site": (x + 1, s - 1, o - 1), "spin": (x, s + 1, o - 1), "orbit": (x, s, o + 1)}[g])
    return out


def setup(c, ranks, types, gaps=None):
    st = c.fresh()
    if gaps is not None:
        lv = levels_of(gaps)
        order = {}
        names = []
        for i in range(len(lv)):
            names.append((csym("s%d_" % i, 0), nat(st, "s%d_spin" % i), nat(st, "s%d_orbit" % i)))
        for i, j in itertools.combinations(range(len(lv)), 2):
            for p in range(3):
                order[names[i][p], names[j][p]] = "<" if lv[i][p] < lv[j][p] else ("=" if lv[i][p] == lv[j][p] else ">")
        with_order(st, order)
        A = c.g(PS, "AoC")
        return st, [c.call(A, [c.g(CO, "CREATION" if t == "C" else "ANNIHILATION"), Tup((names[r][0],))], {"spin": names[r][1], "orbit": names[r][2]}, st) for r, t in zip(ranks, types)]
    k = max(ranks) + 1 if ranks else 0
    order = {}
    for i in range(k if k <= 8 else 0):
        for j in range(i + 1, k):
            order[csym("s%d_" % i, 0), csym("s%d_" % j, 0)] = "<"
    A = c.g(PS, "AoC")
    if k > 8:           # long products: concrete coordinates
        st = c16.fresh(c)
        return st, [c.call(A, [c.g(CO, "CREATION" if t == "C" else "ANNIHILATION"), Tup((Const(0.25 * r),))], {}, st) for r, t in zip(ranks, types)]
    with_order(st, order)
    ops = [c.call(A, [c.g(CO, "CREATION" if t == "C" else "ANNIHILATION"), coords("s%d_" % r, 1)], {}, st) for r, t in zip(ranks, types)]
    return st, ops


def key(r, t):
    return (0, r) if t == "C" else (1, -r)


def one(c, ranks, types, as_tuple=False, gaps=None):
    st, ops = setup(c, ranks, types, gaps)
    n = len(ops)
    ks = [key(r, t) for r, t in zip(ranks, types)]
    inv = [(i, j) for i in range(n) for j in range(i + 1, n) if ks[i] > ks[j]]
    clash = any(ranks[i] == ranks[j] for i, j in inv)
    arg = Tup(ops) if as_tuple else st.new(ListRec(ops, owner="caller"))
    PT = c.g(PS, "ParticleTerm")
    before = [c.freeze(o, st) for o in ops]
    mark = len(st.effects)
    out = c.ex("T.normalize(x)", st, T=PT, x=arg)
    if clash:
        r = c.refuses(out, ("SwapFermionError",))
        return r
    r, why = c.returns(out)
    if r is not True:
        return r, "must succeed but " + why
    st = out.st
    v = out.value
    if not (isinstance(v, Tup) and len(v.items) == 2):
        return None, "unexpected result form"
    lst, cnt = v.items
    g = L.iter_elems(c.ip, lst, c.ip.top(), st, None)
    if len(g) != n:
        return False, "%d operators returned for %d given" % (len(g), n)
    want = [before[i] for i in sorted(range(n), key=lambda i: ks[i])]
    vs = []
    for i, (x, w) in enumerate(zip(g, want)):
        e = c.veq(c.freeze(x, st), w, st)
        if e is False:
            return False, "operator %d of the result is not the expected one" % i
        vs.append(e)
    e = c.veq(cnt, Const(len(inv)), st)
    if e is False:
        return False, "swap count %s, but %d interchanges are needed" % (show(cnt), len(inv))
    vs.append(e)
    if not as_tuple:
        now = st.rec(arg)
        if now.elems is None or tuple(now.elems) != tuple(ops):
            return False, "the caller's list was modified"
        if isinstance(lst, Ref) and lst.id == arg.id:
            return False, "the caller's list is returned"
    for o, f in zip(ops, before):
        if c.freeze(o, st) != f:
            return False, "an operand was modified"
    return All(vs), ""


def check(c):
    c.rule("normal order", "sorted permutation, exact number of adjacent interchanges, dedicated error iff an annihilator precedes a creator of its state, argument untouched")
    where = c.where(c.cls_method(PS, "ParticleTerm", "normalize").f if isinstance(c.cls_method(PS, "ParticleTerm", "normalize"), WrapV) else c.cls_method(PS, "ParticleTerm", "normalize"))
    for n in range(0, 6 if c.thorough else 5):
        for ranks in weak_orders(n) if n else [()]:
            for types in itertools.product("CA", repeat=n):
                c.run("normal order", "states %s types %s" % (",".join(map(str, ranks)), "".join(types)), lambda: one(c, ranks, types), where)
    for n in (2, 3):
        for ranks in weak_orders(n):
            for gaps in itertools.product(("site", "spin", "orbit"), repeat=max(ranks)):
                for types in itertools.product("CA", repeat=n):
                    if n == 3 and not c.thorough and len(set(gaps)) == 1 and gaps[0] == "site":
                        continue
                    c.run("normal order", "states %s types %s states differ by %s" % (",".join(map(str, ranks)), "".join(types), ",".join(gaps)), lambda: one(c, ranks, types, False, gaps), where)
    for ranks, types in (((1, 0), "CC"), ((0, 1, 0), "CAA"), ((0, 0), "CA")):
        c.run("normal order", "tuple argument, states %s types %s" % (ranks, types), lambda: one(c, ranks, types, True), where)
    for n in sizes(c, (PS,), 6, 70, (9, 12, 20)):
        perm = [(7 * i + 3) % n if n % 7 else (5 * i + 3) % n for i in range(n)]
        for what, ranks, types in (("mixed", perm, "CCA" * n), ("reversed creations", range(n)[::-1], "C" * n), ("sorted creations", range(n), "C" * n), ("rising annihilations", range(n), "A" * n),
                                   ("creations last", range(n), "A" * (n - n // 2) + "C" * n), ("pairs", [i // 2 for i in range(n)], "CA" * n), ("clash at the ends", [0] + list(range(1, n - 1)) + [0], "A" + "C" * n),
                                   ("late interchange", list(range(n - 2)) + [n - 1, n - 2], "C" * n)):
            c.run("normal order", "%d operators, %s" % (n, what), lambda: one(c, tuple(ranks), types[:n]), where)
    return c.finish(EXPL, floor=30)
