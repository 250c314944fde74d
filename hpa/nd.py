"""Models of array functions on arrays of known shape (used where no dedicated model applies)."""
import itertools
import math

from .vals import *
from .state import *


class No(Exception):
    """not applicable: fall back to the uninterpreted model"""


def flat(shape, idx):
    k = 0
    for n, i in zip(shape, idx):
        k = k * n + i
    return k


def cells(shape):
    return list(itertools.product(*[range(n) for n in shape]))


class Ctx:
    def __init__(self, ip, args, kw, fr, st, node):
        from . import lib as L, lib2 as B
        self.ip, self.a, self.kw, self.fr, self.st, self.node, self.L, self.B = ip, list(args), dict(kw), fr, st, node, L, B

    def arg(self, i, *names, default=None):
        if i is not None and i < len(self.a):
            return self.a[i]
        for n in names:
            if n in self.kw:
                return self.kw[n]
        if default is None:
            raise No
        return default

    def arr(self, v):
        g = self.L.arr_get(self.ip, self.st, v)
        if g is None:
            raise No
        return tuple(g[0]), list(g[1])

    def int(self, v):
        if isinstance(v, Const) and isinstance(v.v, int):
            return int(v.v)
        raise No

    def ints(self, v):
        if isinstance(v, Const):
            return (self.int(v),)
        s, e = self.arr(v)
        return tuple(self.int(x) for x in e)

    def items(self, v):
        el = self.B.elems(self.ip, v, self.fr, self.st, self.node)
        if el is None:
            raise No
        return list(el)

    def new(self, shape, el):
        shape = tuple(shape)
        if shape == ():
            return el[0]
        return self.L.new_arr(self.st, tuple(shape), list(el))

    def view(self, v, shape, sel):
        """element i of the result is element sel[i] of v (sharing memory)"""
        r = self.st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(r, ArrRec):
            base, bsel = self.B._flatview(self.st, v)
            return self.st.new(ArrRec(shape=tuple(shape), base=base, sel=tuple(bsel[k] for k in sel), owner="view", kind=r.kind))
        el = self.arr(v)[1]
        return self.new(shape, [el[k] for k in sel])

    def norm_axis(self, x, n):
        k = self.int(x) if isinstance(x, Val) else x
        if not -n <= k < n:
            raise No
        return k % n

    def only(self, *names):
        if set(self.kw) - set(names):
            raise No


def permuted(c, v, perm):
    sh, _ = c.arr(v)
    if sorted(perm) != list(range(len(sh))):
        raise No
    ns = tuple(sh[p] for p in perm)
    sel = []
    for idx in cells(ns):
        src = [0] * len(sh)
        for k, p in enumerate(perm):
            src[p] = idx[k]
        sel.append(flat(sh, src))
    return c.view(v, ns, sel)


def f_transpose(c):
    c.only("axes")
    sh, _ = c.arr(c.a[0])
    if len(c.a) > 2:
        ax = [c.int(x) for x in c.a[1:]]
    elif len(c.a) == 1 and "axes" not in c.kw or c.arg(1, "axes") == NONE:
        ax = list(range(len(sh)))[::-1]
    else:
        ax = c.ints(c.arg(1, "axes"))
    return permuted(c, c.a[0], [c.norm_axis(x, len(sh)) for x in ax])


def f_swapaxes(c):
    sh, _ = c.arr(c.a[0])
    i, j = c.norm_axis(c.arg(1, "axis1"), len(sh)), c.norm_axis(c.arg(2, "axis2"), len(sh))
    p = list(range(len(sh)))
    p[i], p[j] = p[j], p[i]
    return permuted(c, c.a[0], p)


def f_moveaxis(c):
    sh, _ = c.arr(c.a[0])
    s = [c.norm_axis(x, len(sh)) for x in c.ints(c.arg(1, "source"))]
    d = [c.norm_axis(x, len(sh)) for x in c.ints(c.arg(2, "destination"))]
    p = [i for i in range(len(sh)) if i not in s]
    for a, b in sorted(zip(d, s)):
        p.insert(a, b)
    return permuted(c, c.a[0], p)


def f_flip(c):
    c.only("axis")
    sh, _ = c.arr(c.a[0])
    ax = c.arg(1, "axis", default=NONE)
    axs = range(len(sh)) if ax == NONE else [c.norm_axis(x, len(sh)) for x in c.ints(ax)]
    sel = [flat(sh, [sh[k] - 1 - i if k in axs else i for k, i in enumerate(idx)]) for idx in cells(sh)]
    return c.view(c.a[0], sh, sel)


def f_flipud(c):
    c.a = [c.a[0], Const(0)]
    return f_flip(c)


def f_fliplr(c):
    c.a = [c.a[0], Const(1)]
    return f_flip(c)


def f_roll(c):
    c.only("shift", "axis")
    sh, el = c.arr(c.a[0])
    k = c.int(c.arg(1, "shift"))
    ax = c.arg(2, "axis", default=NONE)
    if ax == NONE:
        n = len(el)
        return c.new(sh, [el[(i - k) % n] for i in range(n)] if n else [])
    ax = c.norm_axis(ax, len(sh))
    return c.new(sh, [el[flat(sh, [(i - k) % sh[q] if q == ax else i for q, i in enumerate(idx)])] for idx in cells(sh)])


def f_squeeze(c):
    c.only("axis")
    sh, el = c.arr(c.a[0])
    ax = c.arg(1, "axis", default=NONE)
    axs = [k for k, n in enumerate(sh) if n == 1] if ax == NONE else [c.norm_axis(x, len(sh)) for x in c.ints(ax)]
    if any(sh[k] != 1 for k in axs):
        raise No
    return c.view(c.a[0], [n for k, n in enumerate(sh) if k not in axs], range(len(el)))


def f_expand_dims(c):
    sh, el = c.arr(c.a[0])
    ax = c.int(c.arg(1, "axis")) % (len(sh) + 1)
    return c.view(c.a[0], sh[:ax] + (1,) + sh[ax:], range(len(el)))


def f_broadcast_to(c):
    sh, el = c.arr(c.a[0])
    ns = c.ints(c.arg(1, "shape"))
    s2 = (1,) * (len(ns) - len(sh)) + sh
    if any(a != b and a != 1 for a, b in zip(s2, ns)):
        raise No
    return c.new(ns, [el[flat(s2, [i if s2[q] != 1 else 0 for q, i in enumerate(idx)])] for idx in cells(ns)])


def stacked(c, parts, ax):
    n = len(parts[0][0]) + 1
    ax = ax % n
    sh = parts[0][0]
    if any(p[0] != sh for p in parts):
        raise No
    ns = sh[:ax] + (len(parts),) + sh[ax:]
    return c.new(ns, [parts[idx[ax]][1][flat(sh, idx[:ax] + idx[ax + 1:])] for idx in cells(ns)])


def joined(c, parts, ax):
    n = len(parts[0][0])
    ax = ax % n
    if any(len(p[0]) != n or p[0][:ax] + p[0][ax + 1:] != parts[0][0][:ax] + parts[0][0][ax + 1:] for p in parts):
        raise No
    where = [(k, i) for k, p in enumerate(parts) for i in range(p[0][ax])]
    ns = parts[0][0][:ax] + (len(where),) + parts[0][0][ax + 1:]
    out = []
    for idx in cells(ns):
        k, i = where[idx[ax]]
        out.append(parts[k][1][flat(parts[k][0], idx[:ax] + (i,) + idx[ax + 1:])])
    return ns, out


def f_stack(c):
    c.only("axis")
    return stacked(c, [c.arr(x) for x in c.items(c.a[0])], c.int(c.arg(1, "axis", default=Const(0))))


def f_concatenate(c):
    c.only("axis")
    return c.new(*joined(c, [c.arr(x) for x in c.items(c.a[0])], c.int(c.arg(1, "axis", default=Const(0)))))


def f_column_stack(c):
    ps = [c.arr(x) for x in c.items(c.a[0])]
    return c.new(*joined(c, [((p[0][0], 1), p[1]) if len(p[0]) == 1 else p for p in ps], 1))


def f_dstack(c):
    ps = [c.arr(x) for x in c.items(c.a[0])]
    ps = [((1,) + p[0] + (1,), p[1]) if len(p[0]) == 1 else (p[0] + (1,), p[1]) if len(p[0]) == 2 else p for p in ps]
    return c.new(*joined(c, ps, 2))


def f_hstack(c):
    ps = [c.arr(x) for x in c.items(c.a[0])]
    return c.new(*joined(c, ps, 0 if len(ps[0][0]) == 1 else 1))


def f_block(c):
    rows = []
    for r in c.items(c.a[0]):
        ps = [c.arr(x) for x in c.items(r)]
        rows.append(joined(c, ps, 1))
    return c.new(*joined(c, rows, 0))


def f_repeat(c):
    c.only("axis", "repeats")
    sh, el = c.arr(c.a[0])
    ax = c.arg(2, "axis", default=NONE)
    if ax == NONE:
        sh, ax = (len(el),), 0
    else:
        ax = c.norm_axis(ax, len(sh))
    rep = c.ints(c.arg(1, "repeats"))
    rep = rep * sh[ax] if len(rep) == 1 else rep
    if len(rep) != sh[ax]:
        raise No
    src = [i for i in range(sh[ax]) for _ in range(rep[i])]
    ns = sh[:ax] + (len(src),) + sh[ax + 1:]
    return c.new(ns, [el[flat(sh, idx[:ax] + (src[idx[ax]],) + idx[ax + 1:])] for idx in cells(ns)])


def f_tile(c):
    sh, el = c.arr(c.a[0])
    r = c.ints(c.arg(1, "reps"))
    n = max(len(sh), len(r))
    sh, r = (1,) * (n - len(sh)) + sh, (1,) * (n - len(r)) + r
    ns = tuple(a * b for a, b in zip(sh, r))
    return c.new(ns, [el[flat(sh, [i % k for i, k in zip(idx, sh)])] for idx in cells(ns)])


def f_insert(c):
    raise No


def f_einsum(c):
    c.only("optimize")
    spec = c.a[0]
    if not (isinstance(spec, Const) and isinstance(spec.v, str)):
        raise No
    s = spec.v.replace(" ", "")
    ops = [c.arr(x) for x in c.a[1:]]
    lhs, arrow, out = s.partition("->")
    ins = lhs.split(",")
    if "." in s or len(ins) != len(ops) or any(len(i) != len(o[0]) for i, o in zip(ins, ops)):
        raise No
    if not arrow:
        out = "".join(sorted(ch for ch in set(lhs) - {","} if lhs.count(ch) == 1))
    dim = {}
    for i, o in zip(ins, ops):
        for ch, n in zip(i, o[0]):
            if dim.setdefault(ch, n) != n:
                raise No
    summed = [ch for ch in dim if ch not in out]
    total = 1
    for n in dim.values():
        total *= n
    if total > 20000:
        raise No
    el = []
    for idx in cells([dim[ch] for ch in out]):
        env = dict(zip(out, idx))
        acc = Const(0)
        for jdx in cells([dim[ch] for ch in summed]):
            env.update(zip(summed, jdx))
            t = Const(1)
            for i, o in zip(ins, ops):
                t = mul(t, o[1][flat(o[0], [env[ch] for ch in i])])
            acc = add(acc, t)
        el.append(acc)
    return c.new([dim[ch] for ch in out], el)


def f_tensordot(c):
    (sa, ea), (sb, eb) = c.arr(c.a[0]), c.arr(c.a[1])
    ax = c.arg(2, "axes", default=Const(2))
    if isinstance(ax, Const):
        k = c.int(ax)
        xa, xb = list(range(len(sa) - k, len(sa))), list(range(k))
    else:
        p, q = c.items(ax)
        xa, xb = [c.norm_axis(x, len(sa)) for x in c.ints(p)], [c.norm_axis(x, len(sb)) for x in c.ints(q)]
    if [sa[i] for i in xa] != [sb[i] for i in xb]:
        raise No
    la = [chr(97 + i) for i in range(len(sa))]
    lb = [chr(65 + i) for i in range(len(sb))]
    for i, j in zip(xa, xb):
        lb[j] = la[i]
    out = [x for i, x in enumerate(la) if i not in xa] + [x for i, x in enumerate(lb) if i not in xb]
    c.a, c.kw = [Const("%s,%s->%s" % ("".join(la), "".join(lb), "".join(out))), c.a[0], c.a[1]], {}
    return f_einsum(c)


def f_where(c):
    if len(c.a) != 3:
        raise No
    L = c.L
    gs = [c.arr(x) for x in c.a]
    sh, x, y = L.broadcast(gs[0], gs[1])
    sh2, _, z = L.broadcast((sh, y), gs[2])
    sh3, x, z2 = L.broadcast(gs[0], (sh2, z))
    _, y, _ = L.broadcast(gs[1], (sh3, z2))
    return c.new(sh3, [ite(L.truth(c.ip, p, c.fr, c.st, c.node), q, r) if p != q else q for p, q, r in zip(x, y, z2)])


def consts(el):
    if not all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in el):
        raise No
    return [x.v for x in el]


def f_argsort(c):
    c.only("kind", "axis")
    sh, el = c.arr(c.a[0])
    if len(sh) != 1:
        raise No
    v = consts(el)
    if len(set(v)) != len(v) and c.kw.get("kind") not in (Const("stable"), Const("mergesort")):
        raise No
    return c.new(sh, [Const(i) for i in sorted(range(len(v)), key=lambda i: v[i])])


def f_lexsort(c):
    ks = [consts(c.arr(x)[1]) for x in c.items(c.a[0])]
    n = len(ks[0])
    return c.new((n,), [Const(i) for i in sorted(range(n), key=lambda i: tuple(k[i] for k in reversed(ks)))])


def f_isin(c):
    sh, el = c.arr(c.a[0])
    t = consts(c.arr(c.a[1])[1])
    if c.kw:
        raise No
    return c.new(sh, [Const(x in t) for x in consts(el)])


def f_clip(c):
    sh, el = c.arr(c.a[0])
    lo, hi = c.arg(1, "a_min", default=NONE), c.arg(2, "a_max", default=NONE)
    out = []
    for x in el:
        if lo != NONE:
            x = c.B.minmax(c.ip, "max", [x, lo], None, c.fr, c.st, c.node)
        if hi != NONE:
            x = c.B.minmax(c.ip, "min", [x, hi], None, c.fr, c.st, c.node)
        out.append(x)
    return c.new(sh, out)


def f_meshgrid(c):
    ix = c.kw.get("indexing", Const("xy")).v
    c.only("indexing", "sparse", "copy")
    if c.kw.get("sparse") not in (None, FALSE):
        raise No
    gs = [c.arr(x) for x in c.a]
    if any(len(g[0]) != 1 for g in gs):
        raise No
    ns = [g[0][0] for g in gs]
    if ix == "xy" and len(ns) > 1:
        ns[0], ns[1] = ns[1], ns[0]
    out = []
    for k, g in enumerate(gs):
        p = {0: 1, 1: 0}.get(k, k) if ix == "xy" and len(ns) > 1 else k
        out.append(c.new(tuple(ns), [g[1][idx[p]] for idx in cells(ns)]))
    return c.st.new(ListRec(out, owner="fresh"))


def f_indices(c):
    c.only("dimensions")
    ns = c.ints(c.arg(0, "dimensions"))
    return c.new((len(ns),) + ns, [Const(idx[k]) for k in range(len(ns)) for idx in cells(ns)])


def f_diag_indices(c):
    n, d = c.int(c.a[0]), c.int(c.arg(1, "ndim", default=Const(2)))
    return Tup(c.new((n,), [Const(i) for i in range(n)]) for _ in range(d))


def tri(c, keep):
    c.only("k")
    sh, el = c.arr(c.a[0])
    k = c.int(c.arg(1, "k", default=Const(0)))
    return c.new(sh, [el[flat(sh, idx)] if keep(idx[-1] - idx[-2], k) else Const(0) for idx in cells(sh)])


def f_triu(c):
    return tri(c, lambda d, k: d >= k)


def f_tril(c):
    return tri(c, lambda d, k: d <= k)


def f_fromiter(c):
    el = c.items(c.a[0])
    return c.new((len(el),), el)


def f_diff(c):
    c.only("n", "axis")
    sh, el = c.arr(c.a[0])
    n = c.int(c.arg(1, "n", default=Const(1)))
    if len(c.a) > 3 or n < 0 or not sh:
        raise No
    ax = c.norm_axis(c.arg(2, "axis", default=Const(-1)), len(sh))
    for _ in range(n):
        ns = sh[:ax] + (max(sh[ax] - 1, 0),) + sh[ax + 1:]
        el = [sub(el[flat(sh, i[:ax] + (i[ax] + 1,) + i[ax + 1:])], el[flat(sh, i)]) for i in cells(ns)]
        sh = ns
    return c.new(sh, el)


def f_cumprod(c):
    return scan(c, mul)


def f_cumsum(c):
    return scan(c, add)


def scan(c, f):
    c.only("axis")
    sh, el = c.arr(c.a[0])
    ax = c.arg(1, "axis", default=NONE)
    if len(c.a) > 2:
        raise No
    if ax == NONE:
        sh, ax = (len(el),), 0
    else:
        ax = c.norm_axis(ax, len(sh))
    out = {}
    for idx in cells(sh):
        x = el[flat(sh, idx)]
        x = as01(x) if is_bool(x) else x
        if idx[ax]:
            x = f(out[idx[:ax] + (idx[ax] - 1,) + idx[ax + 1:]], x)
        out[idx] = x
    return c.new(sh, [out[i] for i in cells(sh)])


def reduce(c, v, ax, f, keep=False):
    sh, el = c.arr(v)
    axs = range(len(sh)) if ax == NONE else [c.norm_axis(x, len(sh)) for x in c.ints(ax)]
    out = {}
    for idx in cells(sh):
        k = tuple((0 if q in axs else i) for q, i in enumerate(idx) if keep or q not in axs)
        out.setdefault(k, []).append(el[flat(sh, idx)])
    ns = tuple(1 if q in axs else n for q, n in enumerate(sh) if keep or q not in axs)
    return c.new(ns, [f(out[k]) if k in out else f([]) for k in cells(ns)])


def total(xs):
    r = Const(0)
    for x in xs:
        r = add(r, as01(x) if is_bool(x) else x)
    return r


def product(xs):
    r = Const(1)
    for x in xs:
        r = mul(r, x)
    return r


def red(f):
    def g(c):
        c.only("axis", "keepdims", "dtype")
        k = c.kw.get("keepdims", FALSE)
        return reduce(c, c.a[0], c.arg(1, "axis", default=NONE), f(c), k == TRUE)
    return g


f_sum = red(lambda c: total)
f_prod = red(lambda c: product)
f_mean = red(lambda c: lambda xs: div(total(xs), Const(len(xs))) if xs else Const(math.nan))
f_any = red(lambda c: lambda xs: _or([c.L.truth(c.ip, x, c.fr, c.st, c.node) for x in xs]))
f_all = red(lambda c: lambda xs: _and([c.L.truth(c.ip, x, c.fr, c.st, c.node) for x in xs]))


def _mm(k):
    def h(c):
        c.only("axis", "keepdims", "initial")
        init = c.kw.get("initial")

        def g(xs):
            if init is not None:
                xs = list(xs) + [init]
            if not xs:
                raise No
            return c.B.minmax(c.ip, k, xs, None, c.fr, c.st, c.node)
        kd = c.kw.get("keepdims", FALSE)
        return reduce(c, c.a[0], c.arg(1, "axis", default=NONE), g, kd == TRUE)
    return h


f_max = f_amax = _mm("max")
f_min = f_amin = _mm("min")


def _or(xs):
    r = FALSE
    for x in xs:
        r = b_or(r, x)
    return r


def _and(xs):
    r = TRUE
    for x in xs:
        r = b_and(r, x)
    return r


def arg_m(pick):
    def g(c):
        c.only("axis")
        sh, el = c.arr(c.a[0])
        v = consts(el)
        ax = c.arg(1, "axis", default=NONE)
        if ax == NONE:
            return Const(v.index(pick(v)))
        ax = c.norm_axis(ax, len(sh))
        return reduce(c, c.a[0], Const(ax), lambda xs: Const([x.v for x in xs].index(pick(x.v for x in xs))))
    return g


f_argmax, f_argmin = arg_m(max), arg_m(min)


def f_count_nonzero(c):
    c.only("axis")
    return reduce(c, c.a[0], c.arg(1, "axis", default=NONE), lambda xs: total([ite(c.L.truth(c.ip, x, c.fr, c.st, c.node), Const(1), Const(0)) for x in xs]))


def f_linalg_norm(c):
    c.only("axis", "keepdims", "ord")
    from .lib3 import norm
    o = c.arg(1, "ord", default=NONE)
    ax = c.arg(2, "axis", default=NONE)
    f = norm
    if o not in (NONE, Const(2)) and o != Const("fro"):
        sh, _ = c.arr(c.a[0])
        if not isinstance(o, Const) or len(sh) != 1 and ax == NONE:
            raise No
        size = lambda xs: [c.B.do_abs(c.ip, x, c.fr, c.st, c.node) for x in xs]
        f = {1: lambda xs: total(size(xs)), math.inf: lambda xs: c.B.minmax(c.ip, "max", size(xs), None, c.fr, c.st, c.node),
             -math.inf: lambda xs: c.B.minmax(c.ip, "min", size(xs), None, c.fr, c.st, c.node), 0: lambda xs: Const(sum(1 for x in consts(xs) if x))}.get(o.v)
        if f is None:
            raise No
    elif o == Const(2) and ax == NONE and len(c.arr(c.a[0])[0]) > 1:
        raise No
    return reduce(c, c.a[0], ax, f, c.kw.get("keepdims") == TRUE)


def f_searchsorted(c):
    import bisect
    c.only("side")
    v = consts(c.arr(c.a[0])[1])
    side = c.arg(2, "side", default=Const("left")).v
    sh, el = c.arr(c.a[1])
    f = bisect.bisect_left if side == "left" else bisect.bisect_right
    return c.new(sh, [Const(f(v, x)) for x in consts(el)])


def f_unravel_index(c):
    k, ns = c.int(c.a[0]), c.ints(c.a[1])
    out = []
    for n in reversed(ns):
        out.append(Const(k % n))
        k //= n
    return Tup(reversed(out))


def f_atleast_2d(c):
    if len(c.a) != 1:
        raise No
    sh, el = c.arr(c.a[0])
    if len(sh) >= 2:
        return c.a[0]
    return c.view(c.a[0], (1,) * (2 - len(sh)) + sh, range(len(el)))


# ------------------------------------------------------------------ selections
def truths(c, el):
    ts = [c.st.decide(c.L.truth(c.ip, x, c.fr, c.st, c.node)) for x in el]
    if None in ts:
        raise No
    return ts


def hits(c, v):
    sh, el = c.arr(v)
    return sh, [i for i, t in zip(cells(sh), truths(c, el)) if t]


def f_nonzero(c):
    c.only()
    sh, h = hits(c, c.a[0])
    if not sh:
        raise No
    return Tup(c.new((len(h),), [Const(i[q]) for i in h]) for q in range(len(sh)))


def f_flatnonzero(c):
    c.only()
    sh, h = hits(c, c.a[0])
    return c.new((len(h),), [Const(flat(sh, i)) for i in h])


def f_argwhere(c):
    c.only()
    sh, h = hits(c, c.a[0])
    return c.new((len(h), len(sh)), [Const(x) for i in h for x in i])


def f_compress(c):
    c.only()
    ts = truths(c, c.arr(c.a[0])[1])
    sh, el = c.arr(c.a[1])
    if len(c.a) != 2 or len(sh) != 1 or len(ts) > len(el):
        raise No
    out = [x for x, t in zip(el, ts) if t]
    return c.new((len(out),), out)


def f_extract(c):
    return f_compress(c)


def f_take(c):
    c.only("axis")
    sh, el = c.arr(c.a[0])
    ki, ks = c.arr(c.a[1])
    ks = [c.int(k) for k in ks]
    ax = c.arg(2, "axis", default=NONE)
    if ax == NONE:
        return c.new(ki, [el[k] for k in ks])
    ax = c.norm_axis(ax, len(sh))
    out = []
    ns = sh[:ax] + tuple(ki) + sh[ax + 1:]
    for i in cells(sh[:ax]):
        for k in ks:
            for j in cells(sh[ax + 1:]):
                out.append(el[flat(sh, i + (k % sh[ax] if -sh[ax] <= k < sh[ax] else 1 / 0,) + j)])
    return c.new(ns, out)


def f_delete(c):
    c.only("axis")
    sh, el = c.arr(c.a[0])
    ax = c.arg(2, "axis", default=NONE)
    if ax == NONE:
        sh, ax = (len(el),), 0
    else:
        ax = c.norm_axis(ax, len(sh))
    ks = {k % sh[ax] for k in c.ints(c.a[1])}
    keep = [i for i in range(sh[ax]) if i not in ks]
    ns = sh[:ax] + (len(keep),) + sh[ax + 1:]
    return c.new(ns, [el[flat(sh, i[:ax] + (keep[i[ax]],) + i[ax + 1:])] for i in cells(ns)])


def f_split(c):
    c.only("axis")
    sh, el = c.arr(c.a[0])
    ax = c.norm_axis(c.arg(2, "axis", default=Const(0)), len(sh))
    n = sh[ax]
    if isinstance(c.a[1], Const):
        k = c.int(c.a[1])
        if n % k:
            raise No
        cuts = [n // k * i for i in range(k + 1)]
    else:
        cuts = [0] + [max(0, min(n, x)) for x in c.ints(c.a[1])] + [n]
    out = []
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        hi = max(lo, hi)
        ns = sh[:ax] + (hi - lo,) + sh[ax + 1:]
        out.append(c.view(c.a[0], ns, [flat(sh, i[:ax] + (lo + i[ax],) + i[ax + 1:]) for i in cells(ns)]))
    return c.st.new(ListRec(out, owner="fresh"))


def f_array_split(c):
    sh, _ = c.arr(c.a[0])
    if isinstance(c.a[1], Const) and len(c.a) == 2 and not c.kw:
        k, n = c.int(c.a[1]), sh[0]
        sizes = [n // k + (1 if i < n % k else 0) for i in range(k)]
        cuts = list(itertools.accumulate(sizes))[:-1]
        c.a[1] = c.st.new(ListRec([Const(x) for x in cuts], owner="fresh"))
    return f_split(c)


def f_vsplit(c):
    return f_split(c)


def f_hsplit(c):
    sh, _ = c.arr(c.a[0])
    c.a.append(Const(1 if len(sh) > 1 else 0))
    return f_split(c)


# ------------------------------------------------------------------ order
def f_sort(c):
    c.only("axis", "kind")
    sh, el = c.arr(c.a[0])
    consts(el)
    ax = c.arg(1, "axis", default=Const(-1))
    if ax == NONE:
        return c.new((len(el),), sorted(el, key=lambda x: x.v))
    ax = c.norm_axis(ax, len(sh))
    groups = {}
    for i in cells(sh):
        groups.setdefault(i[:ax] + i[ax + 1:], []).append(el[flat(sh, i)])
    groups = {k: sorted(v, key=lambda x: x.v) for k, v in groups.items()}
    return c.new(sh, [groups[i[:ax] + i[ax + 1:]][i[ax]] for i in cells(sh)])


def f_unique(c):
    c.only("axis", "return_index", "return_inverse", "return_counts")
    sh, el = c.arr(c.a[0])
    consts(el)
    ax = c.kw.get("axis", NONE)
    flags = [c.kw.get(k, FALSE) == TRUE for k in ("return_index", "return_inverse", "return_counts")]
    if len(c.a) > 1:
        raise No
    if ax == NONE:
        rows, tail = [(x.v,) for x in el], ()
        kept = {(x.v,): (x,) for x in reversed(el)}
    else:
        if c.norm_axis(ax, len(sh)) != 0:
            raise No
        k = len(el) // sh[0]
        rows, tail = [tuple(x.v for x in el[i * k:(i + 1) * k]) for i in range(sh[0])], sh[1:]
        kept = {tuple(x.v for x in el[i * k:(i + 1) * k]): el[i * k:(i + 1) * k] for i in reversed(range(sh[0]))}
    u = sorted(set(rows))
    out = [c.new((len(u),) + tail, [x for r in u for x in kept[r]])]
    if flags[0]:
        out.append(c.new((len(u),), [Const(rows.index(r)) for r in u]))
    if flags[1]:
        out.append(c.new((len(rows),), [Const(u.index(r)) for r in rows]))
    if flags[2]:
        out.append(c.new((len(u),), [Const(rows.count(r)) for r in u]))
    return out[0] if len(out) == 1 else Tup(out)


def sets(f):
    def g(c):
        c.only()
        return c.new((len(r),), [Const(x) for x in r]) if (r := f(consts(c.arr(c.a[0])[1]), consts(c.arr(c.a[1])[1]))) or True else None
    return g


f_intersect1d = sets(lambda a, b: sorted(set(a) & set(b)))
f_union1d = sets(lambda a, b: sorted(set(a) | set(b)))
f_setdiff1d = sets(lambda a, b: sorted(set(a) - set(b)))
f_setxor1d = sets(lambda a, b: sorted(set(a) ^ set(b)))
f_in1d = lambda c: f_isin(c)


def f_bincount(c):
    c.only()
    v = consts(c.arr(c.a[0])[1])
    if len(c.a) > 1 or not v or min(v) < 0:
        raise No
    return c.new((max(v) + 1,), [Const(v.count(i)) for i in range(max(v) + 1)])


def f_ptp(c):
    c.only("axis")
    ax = c.arg(1, "axis", default=NONE)
    return reduce(c, c.a[0], ax, lambda xs: sub(c.B.minmax(c.ip, "max", xs, None, c.fr, c.st, c.node), c.B.minmax(c.ip, "min", xs, None, c.fr, c.st, c.node)))


def f_average(c):
    c.only("axis", "weights")
    w = c.kw.get("weights", NONE)
    ax = c.arg(1, "axis", default=NONE)
    if w == NONE:
        return reduce(c, c.a[0], ax, lambda xs: div(total(xs), Const(len(xs))))
    (sa, ea), (sb, eb) = c.arr(c.a[0]), c.arr(w)
    if sa != sb or ax != NONE:
        raise No
    return div(total([mul(x, y) for x, y in zip(ea, eb)]), total(eb))


def f_median(c):
    c.only()
    v = sorted(consts(c.arr(c.a[0])[1]))
    n = len(v)
    return Const(float(v[n // 2]) if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2)


def variance(xs):
    m = div(total(xs), Const(len(xs)))
    ds = [sub(x, m) for x in xs]
    return div(total([mul(conj(d), d) for d in ds]), Const(len(xs)))


def f_var(c):
    c.only("axis")
    return reduce(c, c.a[0], c.arg(1, "axis", default=NONE), variance)


def f_std(c):
    c.only("axis")
    return reduce(c, c.a[0], c.arg(1, "axis", default=NONE), lambda xs: func1("sqrt", variance(xs)))


# ------------------------------------------------------------------ elementwise
def each(f):
    def g(c):
        c.only()
        sh, el = c.arr(c.a[0])
        return c.new(sh, [f(c, x) for x in el])
    return g


def const1(f):
    def g(c, x):
        if not isinstance(x, Const) or not isinstance(x.v, (int, float)):
            raise No
        return Const(f(x.v))
    return each(g)


f_isfinite = const1(math.isfinite)
f_isnan = const1(math.isnan)
f_isinf = const1(math.isinf)
f_trunc = f_fix = const1(lambda x: float(math.trunc(x)))
f_log2 = const1(math.log2)
f_log10 = const1(math.log10)
f_log1p = const1(math.log1p)
f_expm1 = const1(math.expm1)
f_sign = const1(lambda x: (x > 0) - (x < 0))
f_logical_not = each(lambda c, x: b_not(c.L.truth(c.ip, x, c.fr, c.st, c.node)))


def spread(c, ga, gb):
    try:
        return c.L.broadcast(ga, gb)
    except ShapeError:
        c.ip.raise_now("ValueError", c.fr, c.st, c.node)


def each2(f):
    def g(c):
        c.only()
        ga, gb = c.arr(c.a[0]), c.arr(c.a[1])
        sh, xa, xb = spread(c, ga, gb)
        return c.new(tuple(sh), [f(c, x, y) for x, y in zip(xa, xb)])
    return g


def truth2(f):
    return each2(lambda c, x, y: f(c.L.truth(c.ip, x, c.fr, c.st, c.node), c.L.truth(c.ip, y, c.fr, c.st, c.node)))


def const2(f):
    def g(c, x, y):
        consts([x, y])
        return Const(f(x.v, y.v))
    return each2(g)


f_logical_and, f_logical_or, f_logical_xor = truth2(b_and), truth2(b_or), truth2(b_xor)
f_gcd, f_lcm = const2(math.gcd), const2(math.lcm)
f_fmax = each2(lambda c, x, y: c.B.minmax(c.ip, "max", [x, y], None, c.fr, c.st, c.node))
f_fmin = each2(lambda c, x, y: c.B.minmax(c.ip, "min", [x, y], None, c.fr, c.st, c.node))
f_hypot = each2(lambda c, x, y: func1("sqrt", add(mul(x, x), mul(y, y))))


def f_arctan2(c):
    from . import lib3
    c.only()
    ga, gb = c.arr(c.a[0]), c.arr(c.a[1])
    if ga[0] == () and gb[0] == ():
        raise No
    sh, xa, xb = spread(c, ga, gb)
    return c.new(tuple(sh), [lib3.call_np(c.ip, "numpy.arctan2", "arctan2", [x, y], {}, c.fr, c.st, c.node) for x, y in zip(xa, xb)])


def f_isclose(c):
    c.only("rtol", "atol")
    rt, at = c.arg(2, "rtol", default=Const(1e-5)).v, c.arg(3, "atol", default=Const(1e-8)).v
    ga, gb = c.arr(c.a[0]), c.arr(c.a[1])
    if ga[0] == () and gb[0] == ():
        raise No
    sh, xa, xb = spread(c, ga, gb)
    for x in xa + xb if isinstance(xa, list) and isinstance(xb, list) else list(xa) + list(xb):
        if not isinstance(x, Const):
            raise No
    return c.new(tuple(sh), [Const(abs(x.v - y.v) <= at + rt * abs(y.v)) for x, y in zip(xa, xb)])


def f_array_equal(c):
    c.only()
    (sa, _), (sb, _) = c.arr(c.a[0]), c.arr(c.a[1])
    if len(c.a) == 2 and sa != sb:
        return FALSE
    raise No


# ------------------------------------------------------------------ construction
def f_linspace(c):
    c.only("num", "endpoint", "retstep", "dtype", "axis")
    if c.kw.get("retstep", c.a[4] if len(c.a) > 4 else FALSE) != TRUE and len(c.a) < 4:
        raise No
    n = c.int(c.arg(2, "num", default=Const(50)))
    ep = c.arg(3, "endpoint", default=TRUE)
    if not isinstance(ep, Const) or n > 4096 or "dtype" in c.kw or "axis" in c.kw:
        raise No
    (sa, ea), (sb, eb) = c.arr(c.a[0]), c.arr(c.a[1])
    if sa != sb:
        raise No
    d = (n - 1 if ep.v else n) or 1
    v = c.new((n,) + sa, [add(x, scale(sub(y, x), i / d)) for i in range(n) for x, y in zip(ea, eb)])
    if c.arg(4, "retstep", default=FALSE) == TRUE:
        return Tup((v, c.new(sa, [scale(sub(y, x), 1 / d) for x, y in zip(ea, eb)])))
    return v


def f_eye(c):
    c.only("M", "k", "dtype")
    n = c.int(c.a[0])
    m = c.arg(1, "M", default=NONE)
    m = n if m == NONE else c.int(m)
    k = c.int(c.arg(2, "k", default=Const(0)))
    if n * m > 4096:
        raise No
    return c.new((n, m), [Const(1.0 if j == i + k else 0.0) for i in range(n) for j in range(m)])


def f_tri(c):
    c.only("M", "k", "dtype")
    n = c.int(c.a[0])
    m = c.arg(1, "M", default=NONE)
    m = n if m == NONE else c.int(m)
    k = c.int(c.arg(2, "k", default=Const(0)))
    return c.new((n, m), [Const(1.0 if j <= i + k else 0.0) for i in range(n) for j in range(m)])


def f_diagflat(c):
    from . import lib3
    sh, el = c.arr(c.a[0])
    return lib3.call_np(c.ip, "numpy.diag", "diag", [c.new((len(el),), el)] + c.a[1:], c.kw, c.fr, c.st, c.node)


def tri_indices(keep):
    def g(c):
        c.only("k", "m")
        n = c.int(c.a[0])
        k = c.int(c.arg(1, "k", default=Const(0)))
        m = c.kw.get("m", NONE)
        m = n if m == NONE else c.int(m)
        h = [(i, j) for i in range(n) for j in range(m) if keep(j - i, k)]
        return Tup((c.new((len(h),), [Const(i) for i, _ in h]), c.new((len(h),), [Const(j) for _, j in h])))
    return g


f_triu_indices, f_tril_indices = tri_indices(lambda d, k: d >= k), tri_indices(lambda d, k: d <= k)
f_row_stack = lambda c: call(c, "vstack")


def call(c, fn):
    from . import lib3
    return lib3.call_np(c.ip, "numpy." + fn, fn, c.a, c.kw, c.fr, c.st, c.node)


def f_atleast_1d(c):
    c.only()
    sh, el = c.arr(c.a[0])
    if len(c.a) != 1 or sh != ():
        raise No
    return c.L.new_arr(c.st, (1,), list(el))


def f_rot90(c):
    c.only("k")
    sh, el = c.arr(c.a[0])
    if len(sh) != 2 or len(c.a) > 2:
        raise No
    for _ in range(c.int(c.arg(1, "k", default=Const(1))) % 4):
        n, m = sh
        el = [el[i * m + (m - 1 - j)] for j in range(m) for i in range(n)]
        sh = (m, n)
    return c.new(sh, el)


def f_ix_(c):
    c.only()
    n = len(c.a)
    out = []
    for q, v in enumerate(c.a):
        sh, el = c.arr(v)
        if len(sh) != 1:
            raise No
        if el and all(is_bool(x) for x in el):
            el = [Const(i) for i, t in enumerate(truths(c, el)) if t]
        out.append(c.new((1,) * q + (len(el),) + (1,) * (n - q - 1), el))
    return Tup(out)


def f_ndindex(c):
    c.only()
    if len(c.a) == 1 and not isinstance(c.a[0], Const):
        ns = c.ints(c.a[0])
    else:
        ns = tuple(c.int(x) for x in c.a)
    return c.st.new(ListRec([Tup(Const(x) for x in i) for i in cells(ns)], owner="fresh", kind="iter"))


def f_ndenumerate(c):
    c.only()
    sh, el = c.arr(c.a[0])
    return c.st.new(ListRec([Tup((Tup(Const(x) for x in i), e)) for i, e in zip(cells(sh), el)], owner="fresh", kind="iter"))


def f_fromfunction(c):
    ns = c.ints(c.a[1])
    c.only("dtype")
    grids = [c.new(ns, [Const(i[q]) for i in cells(ns)]) for q in range(len(ns))]
    v = c.ip.call(c.a[0], grids, {}, c.fr, c.st, c.node)
    return v


def f_apply_along_axis(c):
    c.only()
    if len(c.a) != 3:
        raise No
    sh, el = c.arr(c.a[2])
    ax = c.norm_axis(c.a[1], len(sh))
    groups = {}
    for i in cells(sh):
        groups.setdefault(i[:ax] + i[ax + 1:], []).append(el[flat(sh, i)])
    out = []
    for k in cells(sh[:ax] + sh[ax + 1:]):
        v = c.ip.call(c.a[0], [c.new((sh[ax],), groups[k])], {}, c.fr, c.st, c.node)
        if not (is_num(v) or is_bool(v)) or isinstance(v, Ref):
            raise Undecided("apply_along_axis with array results")
        out.append(v)
    return c.new(sh[:ax] + sh[ax + 1:], out)


def f_linalg_matrix_power(c):
    from .lib import matmul
    sh, el = c.arr(c.a[0])
    n = c.int(c.a[1])
    if n < 1 or n > 16:
        raise No
    r = c.a[0]
    for _ in range(n - 1):
        r = matmul(c.ip, r, c.a[0], c.fr, c.st, c.node)
    return r if n > 1 else c.new(sh, el)


def f_linalg_matrix_rank(c):
    c.only()
    sh, el = c.arr(c.a[0])
    if len(sh) != 2 or len(c.a) != 1:
        raise No
    v = consts(el)
    m = [list(map(float, v[i * sh[1]:(i + 1) * sh[1]])) for i in range(sh[0])]
    r, tol = 0, 1e-9 * max([abs(x) for x in v], default=0.0)
    for j in range(sh[1]):
        k = max(range(r, sh[0]), key=lambda i: abs(m[i][j]), default=None)
        if k is None or abs(m[k][j]) <= tol:
            continue
        m[r], m[k] = m[k], m[r]
        for i in range(r + 1, sh[0]):
            q = m[i][j] / m[r][j]
            m[i] = [x - q * y for x, y in zip(m[i], m[r])]
        r += 1
    return Const(r)


def f_ediff1d(c):
    c.only()
    sh, el = c.arr(c.a[0])
    return c.new((max(len(el) - 1, 0),), [sub(y, x) for x, y in zip(el, el[1:])])


def f_divmod(c):
    return Tup((c.L.binop(c.ip, "FloorDiv", c.a[0], c.a[1], c.fr, c.st, c.node), c.L.binop(c.ip, "Mod", c.a[0], c.a[1], c.fr, c.st, c.node)))


def f_broadcast_arrays(c):
    c.only()
    gs = [c.arr(x) for x in c.a]
    n = max(len(g[0]) for g in gs)
    full = [(1,) * (n - len(g[0])) + g[0] for g in gs]
    ns = tuple(max(f[q] for f in full) for q in range(n))
    if any(f[q] not in (1, ns[q]) for f in full for q in range(n)):
        raise No
    return c.st.new(ListRec([c.new(ns, [g[1][flat(f, tuple(0 if f[q] == 1 else i[q] for q in range(n)))] for i in cells(ns)]) for g, f in zip(gs, full)], owner="fresh"))


def f_select(c):
    c.only("default")
    cs, vs = c.items(c.a[0]), c.items(c.a[1])
    d = c.arg(2, "default", default=Const(0))
    gs = [c.arr(x) for x in cs]
    sh = gs[0][0]
    vals = [c.arr(x) for x in vs]
    if any(g[0] != sh for g in gs) or any(v[0] not in (sh, ()) for v in vals) or not is_num(d) or isinstance(d, Ref):
        raise No
    out = []
    for k in range(len(gs[0][1])):
        r = d
        for g, v in reversed(list(zip(gs, vals))):
            r = ite(c.L.truth(c.ip, g[1][k], c.fr, c.st, c.node), v[1][k] if v[0] else v[1][0], r)
        out.append(r)
    return c.new(sh, out)


def f_angle(c):
    from . import lib3
    x = c.a[0]
    c.only("deg")
    if not isinstance(x, Const) or not isinstance(x.v, (int, float, complex)) or len(c.a) > 1:
        raise No
    import cmath
    v = cmath.phase(x.v)
    return Const(math.degrees(v) if c.kw.get("deg") == TRUE else v)


def f_base_repr(c):
    c.only("base")
    n, b = c.int(c.a[0]), c.int(c.arg(1, "base", default=Const(2)))
    if n < 0 or not 2 <= b <= 36:
        raise No
    ds = ""
    while True:
        ds = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[n % b] + ds
        n //= b
        if not n:
            return Const(ds)


def f_binary_repr(c):
    c.only("width")
    n = c.int(c.a[0])
    w = c.arg(1, "width", default=NONE)
    if n < 0:
        raise No
    return Const(bin(n)[2:].zfill(0 if w == NONE else c.int(w)))


def f_interp(c):
    c.only()
    x, xs, ys = c.a[0], consts(c.arr(c.a[1])[1]), c.arr(c.a[2])[1]
    if not isinstance(x, Const) or len(c.a) != 3:
        raise No
    if x.v <= xs[0]:
        return ys[0]
    for i in range(1, len(xs)):
        if x.v <= xs[i]:
            return add(ys[i - 1], scale(sub(ys[i], ys[i - 1]), (x.v - xs[i - 1]) / (xs[i] - xs[i - 1])))
    return ys[-1]


def f_polyval(c):
    c.only()
    r = Const(0)
    for k in c.arr(c.a[0])[1]:
        r = add(mul(r, c.a[1]), k)
    if not is_num(c.a[1]) or isinstance(c.a[1], Ref):
        raise No
    return r


def ufunc_reduce(c, uf):
    tr = lambda xs: [c.L.truth(c.ip, x, c.fr, c.st, c.node) for x in xs]
    bits = lambda op: lambda xs: fold(lambda x, y: c.L.binop(c.ip, op, x, y, c.fr, c.st, c.node), xs)
    f = {"add": total, "multiply": product, "minimum": lambda xs: c.B.minmax(c.ip, "min", xs, None, c.fr, c.st, c.node), "maximum": lambda xs: c.B.minmax(c.ip, "max", xs, None, c.fr, c.st, c.node),
         "logical_and": lambda xs: _and(tr(xs)), "logical_or": lambda xs: _or(tr(xs)), "bitwise_or": bits("BitOr"), "bitwise_and": bits("BitAnd"), "bitwise_xor": bits("BitXor"),
         "subtract": lambda xs: fold(sub, xs)}.get(uf)
    if f is None:
        raise No
    c.only("axis", "dtype")
    return reduce(c, c.a[0], c.arg(1, "axis", default=Const(0)), f)


def fold(f, xs):
    if not xs:
        raise No
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def ufunc_accumulate(c, uf):
    f = {"add": add, "multiply": mul}.get(uf)
    if f is None:
        raise No
    if len(c.a) == 1 and "axis" not in c.kw:
        c.kw["axis"] = Const(0)
    return scan(c, f)


def ufunc_outer(c, uf):
    f = {"add": add, "multiply": mul, "subtract": sub}.get(uf)
    if f is None:
        raise No
    (sa, ea), (sb, eb) = c.arr(c.a[0]), c.arr(c.a[1])
    return c.new(sa + sb, [f(x, y) for x in ea for y in eb])


TABLE = {k[2:]: v for k, v in list(globals().items()) if k.startswith("f_")}


def try_np(ip, fn, args, kw, fr, st, node):
    """value of numpy.<fn>(*args, **kw) or None"""
    f = TABLE.get(fn.replace(".", "_"))
    uf = None
    if f is None and fn.count(".") == 1:
        u, m = fn.split(".")
        f = {"reduce": ufunc_reduce, "outer": ufunc_outer, "accumulate": ufunc_accumulate}.get(m)
        uf = u
    if f is None or not args:
        return None
    c = Ctx(ip, args, kw, fr, st, node)
    try:
        v = f(c, uf) if uf else f(c)
    except (No, IndexError, KeyError, AttributeError, ValueError, TypeError):
        return None
    return v


def index_trick(ip, kind, i, fr, st, node):
    from . import lib as L, lib3
    items = list(i.items) if isinstance(i, Tup) else [i]
    c = Ctx(ip, [NONE], {}, fr, st, node)
    ref = lambda xs: st.new(ListRec(list(xs), owner="fresh"))

    def rng(x):
        lo, hi, step = (None if y == NONE else y for y in (x.lo, x.hi, x.st))
        vs = [y.v if isinstance(y, Const) else None if y is None else "?" for y in (lo, hi, step)]
        if "?" in vs or vs[1] is None:
            raise No
        lo, hi, step = vs[0] or 0, vs[1], 1 if vs[2] is None else vs[2]
        if isinstance(step, complex):
            n = int(abs(step))
            return [lo + (hi - lo) * k / max(n - 1, 1) for k in range(n)]
        return [lo + k * step for k in range(max(0, math.ceil((hi - lo) / step)))]
    try:
        if kind in ("mgrid", "ogrid"):
            rs = [rng(x) for x in items if isinstance(x, SliceV)]
            if len(rs) != len(items):
                return None
            ns = tuple(len(r) for r in rs)
            if len(rs) == 1 and not isinstance(i, Tup):
                return c.new(ns, [Const(x) for x in rs[0]])
            if kind == "mgrid":
                return c.new((len(rs),) + ns, [Const(rs[q][k[q]]) for q in range(len(rs)) for k in cells(ns)])
            return ref(c.new((1,) * q + (len(r),) + (1,) * (len(rs) - q - 1), [Const(x) for x in r]) for q, r in enumerate(rs))
        parts = []
        for x in items:
            if isinstance(x, SliceV):
                el = [Const(y) for y in rng(x)]
                parts.append(c.new((len(el),), el))
            elif isinstance(x, Const) and isinstance(x.v, str):
                return None
            else:
                sh, el = c.arr(x)
                parts.append(L.new_arr(st, sh or (1,), el))
        if kind == "c_":
            return lib3.call_np(ip, "numpy.column_stack", "column_stack", [ref(parts)], {}, fr, st, node)
        if all(len(c.arr(p)[0]) == 1 for p in parts):
            el = [x for p in parts for x in c.arr(p)[1]]
            return L.new_arr(st, (len(el),), el)
        return lib3.call_np(ip, "numpy.concatenate", "concatenate", [ref(parts)], {}, fr, st, node)
    except (No, TypeError, ZeroDivisionError):
        return None


FIRST = {"nonzero", "flatnonzero", "argwhere", "sort", "unique", "linalg.norm", "isclose", "array_equal", "linspace", "eye", "atleast_1d", "logical_and", "logical_or", "logical_not", "logical_xor",
         "isfinite", "isnan", "trunc", "sign", "count_nonzero", "delete", "searchsorted", "split"}
