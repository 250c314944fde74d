"""Abstract machine state: heap, locals, path facts; joins at control-flow merges."""
import itertools
from .vals import *


class Rec:
    __slots__ = ()


class ObjRec(Rec):
    __slots__ = ("cls", "fields", "owner", "site")

    def __init__(self, cls, fields, owner="", site=None):
        self.cls, self.fields, self.owner, self.site = cls, fields, owner, site

    def copy(self):
        return ObjRec(self.cls, dict(self.fields), self.owner, self.site)


class ListRec(Rec):
    """list (also deque/iterators); elems is None when the content is unknown."""
    __slots__ = ("elems", "sym", "owner", "site", "kind", "pos")

    def __init__(self, elems, sym=None, owner="", site=None, kind="list", pos=0):
        self.elems = None if elems is None else tuple(elems)
        self.sym, self.owner, self.site, self.kind, self.pos = sym, owner, site, kind, pos

    def copy(self):
        return ListRec(self.elems, self.sym, self.owner, self.site, self.kind, self.pos)


class DictRec(Rec):
    """dict / OrderedDict / set (values None); items is None when unknown."""
    __slots__ = ("items", "sym", "owner", "site", "kind", "default")

    def __init__(self, items, sym=None, owner="", site=None, kind="dict", default=None):
        self.items = None if items is None else tuple(items)
        self.sym, self.owner, self.site, self.kind, self.default = sym, owner, site, kind, default

    def copy(self):
        return DictRec(self.items, self.sym, self.owner, self.site, self.kind, self.default)


class ArrRec(Rec):
    """ndarray / sparse matrix.  Either shape+elems known, or expr (a value-graph term)."""
    __slots__ = ("shape", "elems", "expr", "base", "owner", "site", "dtype", "kind", "sel")

    def __init__(self, shape=None, elems=None, expr=None, base=None, owner="", site=None, dtype=None, kind="ndarray", sel=None):
        self.shape, self.elems, self.expr, self.base = shape, elems, expr, base
        self.owner, self.site, self.dtype, self.kind = owner, site, dtype, kind
        self.sel = sel      # for views: flat index map into base, when known

    def copy(self):
        return ArrRec(self.shape, self.elems, self.expr, self.base, self.owner, self.site, self.dtype, self.kind, self.sel)


_ids = itertools.count(1)


class Dead(Exception):
    """current path is unreachable (all continuations exited)"""


class State:
    __slots__ = ("heap", "locals", "path", "facts", "cfacts", "effects", "order")

    def __init__(self):
        self.heap = {}
        self.locals = {}
        self.path = ()
        self.facts = {}      # atom -> bool
        self.cfacts = ()     # compound conditions known true
        self.effects = ()    # (ref id, kind, where)
        self.order = None    # OrderOracle

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.locals = {k: dict(v) for k, v in self.locals.items()}
        s.path, s.facts, s.cfacts = self.path, dict(self.facts), self.cfacts
        s.effects, s.order = self.effects, self.order
        return s

    def become(self, o):
        self.heap, self.locals, self.path, self.facts = o.heap, o.locals, o.path, o.facts
        self.cfacts, self.effects, self.order = o.cfacts, o.effects, o.order

    # -------------------------------------------------------------- heap
    def new(self, rec):
        i = next(_ids)
        self.heap[i] = rec
        return Ref(i)

    def rec(self, ref):
        return self.heap[ref.id]

    def write(self, ref, rec, kind, where):
        self.heap[ref.id] = rec
        self.effects = self.effects + ((ref.id, kind, where),)

    # -------------------------------------------------------------- facts
    def decide(self, c):
        """True / False / None for a boolean value"""
        if isinstance(c, Const):
            return bool(c.v)
        r = self._decide_atom(c) if not isinstance(c, Poly) else None
        if r is not None:
            return r
        s = self.simp(c)
        if isinstance(s, Const):
            return bool(s.v)
        for f in self.cfacts:
            try:
                g = b_and(self.simp(f), s)
            except Undecided:
                continue
            if g == s and False:
                return None
            if isinstance(g, Const) and not g.v:
                return False
            if g == self.simp(f):
                return True
        return None

    def _decide_atom(self, a):
        if a in self.facts:
            return self.facts[a]
        if isinstance(a, App):
            if a.op == "zero":
                p = App("pos", (_pnx(a.args[0]),), "bool")
                n = App("pos", (_pnx(neg(a.args[0])),), "bool")
                if self.facts.get(p) or self.facts.get(n):
                    return False
                if self.facts.get(p) is False and self.facts.get(n) is False:
                    return True
                if self._bound(a.args[0]) or self._bound(neg(a.args[0])):
                    return False
            elif a.op == "pos":
                z, _ = normsign(a.args[0])
                z = App("zero", (z,), "bool")
                if self.facts.get(z):
                    return False
                n = App("pos", (_pnx(neg(a.args[0])),), "bool")
                if self.facts.get(n):
                    return False
                if self.facts.get(z) is False and self.facts.get(n) is False:
                    return True
                # bounds: pos(x + k) known => pos(x + k') for k' >= k
                r = self._bound(a.args[0])
                if r is not None:
                    return r
            if self.order is not None:
                r = self.order.decide(a, self)
                if r is not None:
                    return r
            if a.op in ("zero", "pos"):
                return self._split(a)
        return None

    def _split(self, a):
        """the sign of a merged value: decide it in the two branches of an indicator it contains"""
        inds = sorted({x for m in terms(a.args[0]) for x, _ in m if tyof(x) == "bool"}, key=show)
        if not inds or len(inds) > 4:
            return None
        i = inds[0]
        known = self.facts.get(i)
        res = []
        for v in (True, False) if known is None else (known,):
            try:
                q = subst(a, {i: Const(v)})
            except Undecided:
                return None
            r = bool(q.v) if isinstance(q, Const) else self.decide(q)
            if r is None and known is None:
                t = self.copy()
                try:
                    t.assume(i, v)
                except Dead:
                    continue
                r = t.decide(q)
            if r is None:
                return None
            res.append(r)
        return res[0] if res and all(x == res[0] for x in res) else None

    def _bound(self, p):
        t = terms(p)
        k = t.pop((), 0)
        if not t or isinstance(k, complex):
            return None
        isint = all(isinstance(c, int) or (isinstance(c, float) and c == int(c)) for c in t.values()) and \
            all(tyof(a) in ("int", "npint", "bool") and n > 0 for m in t for a, n in m)
        key = frozenset(t.items())
        nkey = frozenset((m, -c) for m, c in t.items())
        for f, val in self.facts.items():
            if not (isinstance(f, App) and f.op == "pos"):
                continue
            u = terms(f.args[0])
            kk = u.pop((), 0)
            if isinstance(kk, complex):
                continue
            fk = frozenset(u.items())
            if fk == key:
                # val: base + kk > 0 ; query base + k > 0
                if val and k >= kk:
                    return True
                if val and isint and k >= kk - 1 + 1e-9 and k > kk - 1:
                    return True
                if not val and k <= kk:
                    return False
            elif fk == nkey:
                # fact: -base + kk > 0  i.e. base < kk ; query base > -k
                if val and -k >= kk:
                    return False
                if val and isint and -k >= kk - 1:
                    return False
                if not val:            # base >= kk
                    if kk > -k:
                        return True
        return None

    def simp(self, v):
        m = {}
        for a in atoms_in(v):
            if isinstance(a, (Sym, App)) and a.ty == "bool":
                r = self._decide_atom(a)
                if r is not None:
                    m[a] = Const(r)
        return subst(v, m) if m else v

    def assume(self, c, pol=True):
        """record a fact; returns False when contradictory"""
        if isinstance(c, Const):
            return bool(c.v) == pol
        self.path = self.path + ((c, pol),)
        self._learn(c if pol else b_not(c))
        return True

    def _learn(self, c):
        c = self.simp(c)
        if isinstance(c, Const):
            return
        if isinstance(c, (Sym, App)):
            self.facts[c] = True
            return
        n = b_not(c)
        if isinstance(n, (Sym, App)):
            self.facts[n] = False
            return
        if isinstance(c, Poly):
            got = False
            for a in list({a for m, _ in c.terms for a, _ in m}):
                # a implied by c ?
                try:
                    if b_and(c, a) == c:
                        self.facts[a] = True
                        got = True
                    elif b_and(c, b_not(a)) == c:
                        self.facts[a] = False
                        got = True
                except Undecided:
                    pass
            r = self.simp(c) if got else c
            if not isinstance(r, Const):
                self.cfacts = self.cfacts + (r,)


def _pnx(p):
    from .vals import _pn
    return _pn(p)


# ------------------------------------------------------------------ joins
def _pc(path):
    """conjunction of path decisions; None when too large"""
    c = TRUE
    try:
        for d, pol in path:
            if isinstance(d, Ite):
                return None
            c = b_and(c, d if pol else b_not(d))
            if isinstance(c, Poly) and len(c.terms) > 120:
                return None
    except Undecided:
        return None
    return c


def merge_states(items):
    """items: list of (State, value or None).  Join along the path tree.
    Returns (State, value)."""
    if not items:
        raise Dead()
    if len(items) == 1:
        return items[0]
    k = 0
    paths = [s.path for s, _ in items]
    while all(len(p) > k for p in paths) and all(p[k] == paths[0][k] for p in paths):
        k += 1
    s, v, r = _merge(items, k)
    s.path = paths[0][:k]
    if r is None:
        s.path = s.path + ((Sym("inexact%d" % next(_ids), "bool"), True),)
    elif r != TRUE:
        s.path = s.path + ((r, True),)
        s._learn(r)
    return s, v


def _merge(items, k):
    """joined state, value and the condition (relative to the first k decisions) of reaching here"""
    if len(items) == 1:
        return items[0][0], items[0][1], _pc(items[0][0].path[k:])
    paths = [s.path for s, _ in items]
    # group by the leading decision when there is one shared condition
    if all(len(p) > k for p in paths) and len({p[k][0] for p in paths}) == 1:
        cond = paths[0][k][0]
        t = [it for it in items if it[0].path[k][1]]
        f = [it for it in items if not it[0].path[k][1]]
        if t and f:
            A, B = _merge(t, k + 1), _merge(f, k + 1)
            s, v = _join(cond, A[:2], B[:2], k)
            r = None
            if A[2] is not None and B[2] is not None:
                r = TRUE if A[2] == TRUE and B[2] == TRUE else _cases(cond, A[2], B[2])
            return s, v, r
        A = _merge(items, k + 1)
        r = A[2]
        if r is not None:
            r = _cases(cond, r, FALSE) if t else _cases(cond, FALSE, r)
        return A[0], A[1], r
    # states that left a nest of branches early: separate by their own path condition
    conds = {p[k][0] if len(p) > k else None for p in paths}
    best = None
    for c in conds:
        if c is None:
            continue
        grp = [it for it in items if len(it[0].path) > k and it[0].path[k][0] == c]
        if len(grp) < len(items):
            best = grp
            break
    rest = [it for it in items if it not in best]
    A, B = _merge(best, k), _merge(rest, k)
    pa, pb = A[2], B[2]
    if pa is not None:
        cond = pa
    elif pb is not None:
        cond = b_not(pb)
    else:
        cond = Sym("nondet%d" % next(_ids), "bool")
    if isinstance(cond, Const):
        cond = Sym("nondet%d" % next(_ids), "bool")
    s, v = _join(cond, A[:2], B[:2], k)
    r = None
    if pa is not None and pb is not None:
        try:
            r = b_or(pa, pb)
        except Undecided:
            r = None
    return s, v, r


def _cases(c, a, b):
    try:
        r = b_or(b_and(c, a), b_and(b_not(c), b))
        if isinstance(r, Poly) and len(r.terms) > 120:
            return None
        return r
    except Undecided:
        return None


def _join(cond, A, B, k):
    (sa, va), (sb, vb) = A, B
    s = State()
    s.order = sa.order
    s.path = sa.path[:k]
    s.facts = {a: v for a, v in sa.facts.items() if sb.facts.get(a) == v}
    s.cfacts = tuple(f for f in sa.cfacts if f in sb.cfacts)
    s.effects = sa.effects + tuple(e for e in sb.effects if e not in sa.effects)
    heap = {}
    for i in sa.heap.keys() | sb.heap.keys():
        ra, rb = sa.heap.get(i), sb.heap.get(i)
        if ra is None:
            heap[i] = rb
        elif rb is None or ra is rb:
            heap[i] = ra
        else:
            heap[i] = join_rec(cond, ra, rb)
    s.heap = heap
    s.locals = {}
    for f in sa.locals.keys() | sb.locals.keys():
        la, lb = sa.locals.get(f), sb.locals.get(f)
        if la is None or lb is None:
            s.locals[f] = dict(la or lb)
            continue
        d = {}
        for n in la.keys() | lb.keys():
            x, y = la.get(n, UNBOUND), lb.get(n, UNBOUND)
            d[n] = x if x == y else ite(cond, x, y)
        s.locals[f] = d
    if va is None and vb is None:
        v = None
    else:
        va = NONE if va is None else va
        vb = NONE if vb is None else vb
        v = va if va == vb else ite(cond, va, vb)
    return s, v


def join_rec(cond, ra, rb):
    if isinstance(ra, ObjRec) and isinstance(rb, ObjRec):
        f = {}
        for n in ra.fields.keys() | rb.fields.keys():
            x, y = ra.fields.get(n, UNBOUND), rb.fields.get(n, UNBOUND)
            f[n] = x if x == y else ite(cond, x, y)
        return ObjRec(ra.cls, f, ra.owner, ra.site)
    if isinstance(ra, ListRec) and isinstance(rb, ListRec):
        r = ra.copy()
        if ra.elems is not None and rb.elems is not None and len(ra.elems) == len(rb.elems) and ra.pos == rb.pos:
            r.elems = tuple(x if x == y else ite(cond, x, y) for x, y in zip(ra.elems, rb.elems))
        else:
            r.sym = Ite(cond, _seqval(ra), _seqval(rb))
            r.elems = None
        return r
    if isinstance(ra, DictRec) and isinstance(rb, DictRec):
        r = ra.copy()
        if ra.items is not None and rb.items is not None and [k for k, _ in ra.items] == [k for k, _ in rb.items]:
            r.items = tuple((k, x if x == y else ite(cond, x, y)) for (k, x), (_, y) in zip(ra.items, rb.items))
        else:
            r.items, r.sym = None, Opaque("joined dict")
        return r
    if isinstance(ra, ArrRec) and isinstance(rb, ArrRec):
        r = ra.copy()
        if ra.elems is not None and rb.elems is not None and ra.shape == rb.shape:
            r.elems = tuple(x if x == y else ite(cond, x, y) for x, y in zip(ra.elems, rb.elems))
        else:
            r.elems, r.shape, r.expr = None, None, Ite(cond, ra.expr or Opaque("arr"), rb.expr or Opaque("arr"))
        return r
    return ra


def _seqval(r):
    if r.elems is not None:
        return Tup(r.elems)
    return r.sym if r.sym is not None else Opaque("seq")


class OrderOracle:
    """Relations between atoms fixed by the current partition.

    rel[(a, b)] in '<', '>', '=' (identical), '~<', '~>' (different numbers, the same at the
    configured precision).  Scaled/integerised images of the atoms compare accordingly.
    """

    def __init__(self, rel):
        self.rel = {}
        for (a, b), r in rel.items():
            self.rel[a, b] = r
            self.rel[b, a] = {"<": ">", ">": "<", "=": "=", "~<": "~>", "~>": "~<"}[r]

    def decide(self, app, st):
        """app is zero(p) or pos(p) with p = A - B"""
        if app.op not in ("zero", "pos"):
            return None
        t = terms(app.args[0])
        if len(t) != 2:
            return None
        (m1, c1), (m2, c2) = t.items()
        if isinstance(c1, complex) or isinstance(c2, complex) or abs(c1 + c2) > 1e-12:
            return None
        if c1 < 0:
            m1, c1, m2, c2 = m2, c2, m1, c1
        r = self.mono_rel(m1, m2)
        if r is None:
            return None
        if app.op == "zero":
            return r == "="
        return r == ">"

    def mono_rel(self, m1, m2):
        """relation of two monomials that differ in one atom"""
        d1 = [x for x in m1 if x not in m2]
        d2 = [x for x in m2 if x not in m1]
        if len(d1) != 1 or len(d2) != 1 or d1[0][1] != 1 or d2[0][1] != 1:
            return None
        for (a, n) in [x for x in m1 if x in m2]:
            if not (isinstance(a, Sym) and a.name.startswith("setting:")):
                return None
        r = self.atom_rel(d1[0][0], d2[0][0])
        if r in ("~<", "~>"):
            return r[1]
        return r

    def atom_rel(self, a, b):
        r = self.rel.get((a, b))
        if r is not None:
            return r
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and a.op in ("int", "rint", "floor", "ceil", "trunc", "round") \
                and a.args[1:] == b.args[1:]:
            d = sub(a.args[0], b.args[0])
            t = terms(d)
            if len(t) == 2:
                (m1, c1), (m2, c2) = t.items()
                if isinstance(c1, complex) or isinstance(c2, complex) or abs(c1 + c2) > 1e-12:
                    return None
                if c1 < 0:
                    m1, m2 = m2, m1
                d1 = [x for x in m1 if x not in m2]
                d2 = [x for x in m2 if x not in m1]
                if len(d1) != 1 or len(d2) != 1:
                    return None
                shared = [x for x in m1 if x in m2]
                scaled = any(isinstance(x, Sym) and x.name.startswith("setting:") for x, _ in shared) or abs(c1) >= 100
                q = self.atom_rel(d1[0][0], d2[0][0])
                if q is None:
                    return None
                if q == "=":
                    return "="
                if not scaled:
                    return None          # integer part of an unscaled coordinate decides nothing
                if q in ("~<", "~>"):
                    return "="
                return q
        return None
