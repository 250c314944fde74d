"""Abstract values: hash-consed value-graph nodes with a canonical numeric/boolean form.

Numbers and conditions are kept as multilinear polynomials over atoms, where the
indicator of a condition is an idempotent atom.  Boolean algebra is therefore
canonical: two conditions are equivalent iff their polynomials coincide.
"""
import itertools
import hashlib
import math
import operator

TOL = 1e-11


class Undecided(Exception):
    """The analysis met a construct outside its domain: no verdict."""


class ShapeError(Undecided):
    """arrays that do not broadcast together"""


class Val:
    __slots__ = ("key", "h")

    def __eq__(self, o):
        return self is o or (isinstance(o, Val) and self.h == o.h and self.key == o.key)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self.h

    def _k(self, key):
        self.key = key
        self.h = hash(key)

    def __repr__(self):
        return show(self)


class Const(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        if isinstance(v, complex):
            r = (round(v.real, 11) + 0.0, round(v.imag, 11) + 0.0)
        elif isinstance(v, float):
            r = round(v, 11) + 0.0 if v == v and abs(v) != math.inf else repr(v)
        else:
            r = v
        self._k(("C", type(v).__name__, r))


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)
NOTIMPL = Const(NotImplemented)
ELLIPSIS = Const(Ellipsis)


class Sym(Val):
    """Unknown input.  ty: int float complex num bool str ndarray foreign any seq ..."""
    __slots__ = ("name", "ty")

    def __init__(self, name, ty="any"):
        self.name, self.ty = name, ty
        self._k(("S", name, ty))


class App(Val):
    __slots__ = ("op", "args", "ty")

    def __init__(self, op, args, ty="any"):
        self.op, self.args, self.ty = op, tuple(args), ty
        self._k(("A", op, self.args))


class Poly(Val):
    """terms: frozenset-like tuple of (mono, coef), mono = tuple of (atom, exp)."""
    __slots__ = ("terms", "ty")

    def __init__(self, terms, ty):
        self.terms, self.ty = terms, ty
        self._k(("P", frozenset((m, _ck(c)) for m, c in terms)))


def _ck(c):
    if isinstance(c, complex):
        return (round(c.real, 10) + 0.0, round(c.imag, 10) + 0.0)
    return (round(float(c), 10) + 0.0, 0.0) if not isinstance(c, int) or abs(c) < 2**53 else (c, 0.0)


class Ite(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self._k(("I", c, a, b))


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)
        self._k(("T", self.items))


class Ref(Val):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id
        self._k(("R", id))


class SliceV(Val):
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st
        self._k(("SL", lo, hi, st))


class FuncV(Val):
    __slots__ = ("node", "mod", "cls", "closure", "defaults", "kwdefaults", "qual", "name")
    _n = itertools.count()

    def __init__(self, node, mod, cls, closure, defaults, kwdefaults, qual):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.name = getattr(node, "name", "<lambda>")
        self._k(("F", id(node), closure))


class BoundV(Val):
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_
        self._k(("B", func, self_))


class WrapV(Val):
    """property / staticmethod / classmethod / partial wrappers."""
    __slots__ = ("kind", "f", "extra")

    def __init__(self, kind, f, extra=()):
        self.kind, self.f, self.extra = kind, f, tuple(extra)
        self._k(("W", kind, f, self.extra))


class ClassV(Val):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info
        self._k(("K", info.qual))


class ModV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._k(("M", name))


class ExtV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._k(("X", name))


class BltV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name
        self._k(("BL", name))


class MethV(Val):
    __slots__ = ("self_", "name")

    def __init__(self, self_, name):
        self.self_, self.name = self_, name
        self._k(("ME", self_, name))


class HookV(Val):
    __slots__ = ("fn", "name")

    def __init__(self, name, fn):
        self.fn, self.name = fn, name
        self._k(("H", name))


class BitsV(Val):
    """Non-negative integer given by its bits (little endian), every bit a 0/1 value."""
    __slots__ = ("bits",)

    def __init__(self, bits):
        bits = list(bits)
        while bits and bits[-1] == Const(0):
            bits.pop()
        self.bits = tuple(bits)
        self._k(("BV", self.bits))


class Opaque(Val):
    __slots__ = ("why", "uid", "ty")
    _n = itertools.count()

    def __init__(self, why, ty="any"):
        self.why, self.uid, self.ty = why, next(Opaque._n), ty
        self._k(("O", self.uid))


UNBOUND = Sym("<unbound>", "unbound")

NUMT = {"int", "float", "complex", "num", "bool", "npfloat", "npint", "npcomplex"}


def tyof(v):
    if isinstance(v, Const):
        return "none" if v.v is None else type(v.v).__name__
    if isinstance(v, (Sym, App, Poly, Opaque)):
        return v.ty
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, BitsV):
        return "int"
    if isinstance(v, Ite):
        ta, tb = tyof(v.a), tyof(v.b)
        return ta if ta == tb else "any"
    return "any"


def is_num(v):
    if isinstance(v, Const):
        return isinstance(v.v, (int, float, complex))
    if isinstance(v, (Sym, App, Opaque)):
        return v.ty in NUMT or v.ty == "ndarray"
    return isinstance(v, (Poly, BitsV))


def is_bool(v):
    if isinstance(v, Const):
        return isinstance(v.v, bool)
    return isinstance(v, (Sym, App, Poly)) and v.ty == "bool"


# ------------------------------------------------------------------ polynomials
MAXTERMS = 3000


def _idem(atom):
    return isinstance(atom, (Sym, App)) and atom.ty == "bool"


def terms(v):
    if isinstance(v, Const):
        c = v.v
        if isinstance(c, bool):
            c = int(c)
        if not isinstance(c, (int, float, complex)):
            raise Undecided("non-numeric constant in arithmetic")
        return {(): c} if c != 0 else {}
    if isinstance(v, Poly):
        return dict(v.terms)
    if isinstance(v, BitsV):
        r = {}
        for i, b in enumerate(v.bits):
            for m, c in terms(b).items():
                _acc(r, m, c * (1 << i))
        return r
    return {((v, 1),): 1}


def _acc(d, m, c):
    old = d.get(m)
    if old is None:
        n, tiny = c, c == 0
    else:
        n = old + c
        tiny = n == 0 or not (isinstance(old, int) and isinstance(c, int)) and abs(n) <= 1e-13 * max(abs(old), abs(c))
    if tiny:
        d.pop(m, None)
    else:
        d[m] = n


def _ty_join(ts):
    ts = [t for t in ts]
    if "ndarray" in ts:
        return "ndarray"
    for t in ("any", "num", "complex", "npcomplex", "float", "npfloat"):
        if t in ts:
            return "num" if t == "any" else t
    return "int"


def mk_poly(d, ty):
    if not d:
        return Const(False) if ty == "bool" else Const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            if ty == "bool":
                return Const(bool(c))
            if isinstance(c, complex) and abs(c.imag) < 1e-14 and ty != "complex":
                c = c.real
            return Const(c)
        if len(m) == 1 and m[0][1] == 1 and c == 1 and not isinstance(c, complex):
            a = m[0][0]
            return a
    if len(d) > MAXTERMS:
        raise Undecided("polynomial too large")
    return Poly(tuple(sorted(d.items(), key=lambda t: (len(t[0]), hash(t[0])))), ty)


def add(a, b):
    d = terms(a)
    for m, c in terms(b).items():
        _acc(d, m, c)
    return mk_poly(d, _ty_join([_nty(a), _nty(b)]))


def _nty(v):
    t = tyof(v)
    return "int" if t == "bool" else t


def scale(a, k, ty=None):
    return mk_poly({m: c * k for m, c in terms(a).items() if c * k != 0}, ty or _ty_join([_nty(a), type(k).__name__]))


def neg(a):
    return scale(a, -1, _nty(a))


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    e = {}
    for a, n in m1 + m2:
        e[a] = e.get(a, 0) + n
    out = []
    for a, n in e.items():
        if n == 0:
            continue
        if _idem(a) and n > 0:
            n = 1
        out.append((a, n))
    out.sort(key=lambda t: (t[0].h, t[1]))
    return tuple(out)


def mul(a, b, ty=None):
    if isinstance(a, Const) and isinstance(b, Const) and (unbounded(a) is not None or unbounded(b) is not None):
        return Const(a.v * b.v)
    d = {}
    ta, tb = terms(a), terms(b)
    if len(ta) * len(tb) > 40 * MAXTERMS:
        raise Undecided("polynomial product too large")
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            _acc(d, _mono_mul(m1, m2), c1 * c2)
    d = _rel_reduce(d)
    return mk_poly(d, ty or _ty_join([_nty(a), _nty(b)]))


def _rel_reduce(d):
    """sin(x)^2 -> 1 - cos(x)^2 ;  sqrt(k)^2 -> k"""
    again = True
    while again:
        again = False
        for m, c in list(d.items()):
            for i, (a, n) in enumerate(m):
                if n >= 2 and isinstance(a, App) and a.op == "sin":
                    rest = m[:i] + (((a, n - 2),) if n > 2 else ()) + m[i + 1:]
                    co = App("cos", a.args, a.ty)
                    del d[m]
                    _acc(d, _mono_mul(rest, ()), c)
                    _acc(d, _mono_mul(rest, ((co, 2),)), -c)
                    again = True
                    break
                if n >= 2 and isinstance(a, App) and a.op == "sqrt" and is_num(a.args[0]):
                    rest = m[:i] + (((a, n - 2),) if n > 2 else ()) + m[i + 1:]
                    del d[m]
                    for m2, c2 in terms(a.args[0]).items():
                        _acc(d, _mono_mul(rest, m2), c * c2)
                    again = True
                    break
                if n >= 2 and isinstance(a, App) and a.op == "abs" and is_num(a.args[0]):
                    rest = m[:i] + (((a, n - 2),) if n > 2 else ()) + m[i + 1:]
                    del d[m]
                    for m2, c2 in terms(mul(a.args[0], conj(a.args[0]))).items():
                        _acc(d, _mono_mul(rest, m2), c * c2)
                    again = True
                    break
                if n <= -2 and isinstance(a, App) and a.op == "sqrt" and is_num(a.args[0]) and not isinstance(a.args[0], Const):
                    rest = m[:i] + (((a, n + 2),) if n < -2 else ()) + m[i + 1:]
                    iv = inv(a.args[0])
                    del d[m]
                    for m2, c2 in terms(iv).items():
                        _acc(d, _mono_mul(rest, m2), c * c2)
                    again = True
                    break
            if again:
                break
    return d


def inv(b):
    t = terms(b)
    if not t:
        raise Undecided("division by zero")
    if len(t) == 1:
        (m, c), = t.items()
        if m == ():
            return Const(1 / c)
        m2 = tuple((a, -n) for a, n in m)
        return mk_poly({m2: (1 / c if c != 1 else 1)}, _ty_join([_nty(b), "float"]))
    lead = leading(t)
    p = scale(b, 1 / lead if lead != 1 else 1)
    at = App("paren", (p,), _ty_join([_nty(b), "float"]))
    return mk_poly({((at, -1),): 1 / lead if lead != 1 else 1}, at.ty)


def leading(t):
    m = min(t, key=lambda m: (-len(m), sorted(show(a) + str(n) for a, n in m)))
    return t[m]


def div(a, b):
    if isinstance(a, Const) and isinstance(b, Const):
        return Const(a.v / b.v)
    # a/(x+y) with a a multiple of x+y
    t = mul(a, inv(b))
    return t


def power(a, n):
    if isinstance(n, Const) and isinstance(n.v, (int, float)) and n.v == int(n.v) and abs(n.v) <= 16:
        k = int(n.v)
        r = Const(1)
        base = a if k >= 0 else inv(a)
        for _ in range(abs(k)):
            r = mul(r, base)
        return r
    if isinstance(n, Const) and n.v == 0.5:
        return func1("sqrt", a)
    if isinstance(a, Const) and a.v == -1 and is_num(n):
        # (-1)**n for n a sum of indicators / integers
        t = terms(n)
        r = Const(1)
        for m, c in t.items():
            if not isinstance(c, int):
                break
            if c % 2 == 0:
                continue
            if all(_idem(x) for x, _ in m):
                ind = mk_poly({m: 1}, "int")
                r = mul(r, sub(Const(1), scale(ind, 2)))
            else:
                break
        else:
            return r
    if isinstance(a, Const) and isinstance(n, Const):
        try:
            return Const(a.v ** n.v)
        except Exception:
            raise Undecided("power")
    return App("pow", (a, n), _ty_join([_nty(a), _nty(n)]))


def mod2(a):
    """parity of an integer combination of indicators, as 0/1 value."""
    t = terms(a)
    s = Const(1)
    for m, c in t.items():
        if not isinstance(c, int):
            return None
        if c % 2 == 0:
            continue
        if not all(_idem(x) for x, _ in m):
            return None
        s = mul(s, sub(Const(1), scale(mk_poly({m: 1}, "int"), 2)))
    return scale(sub(Const(1), s), 0.5)


def intize(v):
    """Turn float coefficients that are whole numbers into ints."""
    if isinstance(v, Poly):
        d = {}
        for m, c in v.terms:
            if isinstance(c, float) and c == int(c):
                c = int(c)
            d[m] = c
        return mk_poly(d, v.ty)
    if isinstance(v, Const) and isinstance(v.v, float) and v.v == int(v.v):
        return Const(int(v.v))
    return v


PI = math.pi


def func1(name, a):
    """elementary functions of one number"""
    if isinstance(a, Const):
        x = a.v
        try:
            import cmath
            f = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": math.sqrt, "exp": cmath.exp if isinstance(x, complex) else math.exp,
                 "abs": abs, "acos": math.acos, "asin": math.asin, "atan": math.atan,
                 "floor": math.floor, "ceil": math.ceil, "rint": round, "log": math.log}[name]
            r = f(x)
            if isinstance(r, float) and abs(r) < 1e-16 and name in ("sin", "cos", "tan"):
                r = 0.0
            return Const(r)
        except (KeyError, ValueError, TypeError, OverflowError):
            return App(name, (a,), "num")
    ty = "float" if tyof(a) in ("int", "float", "bool") else tyof(a)
    if name in ("sin", "cos") and not isinstance(a, Const):
        t = terms(a)
        if t:
            ld = leading(t)
            if not isinstance(ld, complex) and ld < 0:
                r = App(name, (neg(a),), ty)
                return neg(r) if name == "sin" else r
        return App(name, (a,), ty)
    if name == "tan":
        return mul(func1("sin", a), inv(func1("cos", a)))
    if name == "sqrt":
        t = terms(a)
        if len(t) == 1:
            (m, k), = t.items()
            if isinstance(k, complex) and k.imag == 0:
                k = k.real
            if m and isinstance(k, (int, float)) and k > 0 and all(n % 2 == 0 and tyof(x) in ("int", "float", "bool") for x, n in m):
                r = Const(math.sqrt(k)) if k != 1 else Const(1)
                for x, n in m:      # the root of a square is the modulus
                    r = mul(r, power(x if (n // 2) % 2 == 0 else func1("abs", x), Const(n // 2)))
                return r
        if ty not in ("int", "float") and square_sum(a):
            ty = "float"
        return App("sqrt", (a,), ty)
    if name == "abs":
        t = terms(a)
        if t:
            ld = leading(t)
            if not isinstance(ld, complex) and ld < 0:
                a = neg(a)
        return App("abs", (a,), "float" if ty != "int" else "int")
    return App(name, (a,), ty)


def square_sum(a):
    """a sum of squared moduli with positive weights"""
    for m, c in terms(a).items():
        if isinstance(c, complex) and c.imag == 0:
            c = c.real
        if isinstance(c, complex) or c < 0:
            return False
        d = dict(m)
        for x, n in m:
            if n % 2 if tyof(x) in ("int", "float", "bool") else d.get(conj(x)) != n:
                return False
    return True


def conj(v):
    if isinstance(v, Const):
        return Const(v.v.conjugate()) if isinstance(v.v, (int, float, complex)) else App("conj", (v,))
    if isinstance(v, Poly):
        d = {}
        for m, c in v.terms:
            m2 = tuple(sorted(((conj(a), n) for a, n in m), key=lambda t: (t[0].h, t[1])))
            _acc(d, m2, c.conjugate())
        return mk_poly(d, v.ty)
    if isinstance(v, (Sym, App)) and v.ty in ("int", "float", "bool", "npfloat", "npint"):
        return v
    if isinstance(v, App) and v.op == "conj":
        return v.args[0]
    if isinstance(v, App) and v.op == "paren":
        return App("paren", (conj(v.args[0]),), v.ty)
    if isinstance(v, App) and v.op == "matmul":
        return App("matmul", tuple(conj(x) for x in v.args), v.ty)
    if isinstance(v, App) and v.op in ("identity", "zeros", "shape", "eye"):
        return v
    if isinstance(v, App) and v.op in ("getitem",):
        return App("getitem", (conj(v.args[0]),) + v.args[1:], v.ty)
    if isinstance(v, Ite):
        return ite(v.c, conj(v.a), conj(v.b))
    return App("conj", (v,), tyof(v))


# ------------------------------------------------------------------ booleans
def b_not(c):
    if isinstance(c, Const):
        return Const(not c.v)
    return mk_poly(_sub1(c), "bool")


def _sub1(c):
    d = {m: -k for m, k in terms(c).items()}
    _acc(d, (), 1)
    return d


def b_and(a, b):
    if isinstance(a, Const):
        return b if a.v else FALSE
    if isinstance(b, Const):
        return a if b.v else FALSE
    return _asbool(mul(a, b, "bool"))


def _asbool(v):
    if isinstance(v, Const):
        return Const(bool(v.v))
    return v


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


def b_xor(a, b):
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


def ite(c, a, b):
    if isinstance(c, Const):
        return a if c.v else b
    if a == b:
        return a
    if is_bool(a) and is_bool(b):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup(ite(c, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, BitsV) and isinstance(b, BitsV):
        n = max(len(a.bits), len(b.bits))
        pa = a.bits + (Const(0),) * (n - len(a.bits))
        pb = b.bits + (Const(0),) * (n - len(b.bits))
        return BitsV(intize(ite(c, x, y)) for x, y in zip(pa, pb))
    if is_num(a) and is_num(b) and not isinstance(a, Opaque) and not isinstance(b, Opaque) \
            and tyof(a) != "ndarray" and tyof(b) != "ndarray" and tyof(a) not in ("any",):
        if not (isinstance(a, BitsV) or isinstance(b, BitsV)):
            try:
                return add(b, mul(c, sub(a, b)))
            except Undecided:
                pass
    if isinstance(c, Poly):
        n = b_not(c)
        if not isinstance(n, Poly) or len(n.terms) < len(c.terms):
            return Ite(n, b, a)
    # nested with the same condition
    if isinstance(a, Ite) and a.c == c:
        a = a.a
    if isinstance(b, Ite) and b.c == c:
        b = b.b
    if a == b:
        return a
    return Ite(c, a, b)


def normsign(p):
    t = terms(p)
    ld = leading(t)
    if isinstance(ld, complex):
        return scale(p, 1 / ld), False
    if ld == 0:
        return p, False
    k = abs(ld)
    q = scale(p, 1 / k) if k != 1 else p
    return q, ld < 0


def unbounded(a):
    """the infinite or undefined float a stands for, if any"""
    if isinstance(a, Const) and isinstance(a.v, float) and not math.isfinite(a.v):
        return a.v
    return None


def cmp_num(op, a, b):
    """op in lt le gt ge eq ne -> boolean value"""
    if isinstance(a, BitsV) or isinstance(b, BitsV):
        if op in ("eq", "ne") and isinstance(a, (BitsV, Const)) and isinstance(b, (BitsV, Const)):
            xa, xb = as_bits(a), as_bits(b)
            if xa is not None and xb is not None:
                n = max(len(xa), len(xb))
                r = TRUE
                for i in range(n):
                    p = xa[i] if i < len(xa) else Const(0)
                    q = xb[i] if i < len(xb) else Const(0)
                    r = b_and(r, _biteq(p, q))
                return r if op == "eq" else b_not(r)
        if isinstance(b, Const) and b.v == 0 and op in ("gt", "le"):
            r = cmp_num("ne", a, b)
            return r if op == "gt" else b_not(r)
    x, y = unbounded(a), unbounded(b)
    if x is not None or y is not None:
        # symbolic numbers are finite
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(bool(getattr(operator, op)(a.v, b.v)))
        if x != x and x is not None or y != y and y is not None:
            return Const(op == "ne")
        if not has_opaque(a) and not has_opaque(b):
            return Const(bool(getattr(operator, op)(x or 0.0, y or 0.0)))
        return App("cmp:" + op, (a, b), "bool")
    d = sub(a, b)
    if isinstance(d, Const):
        v = d.v
        if isinstance(v, complex):
            if op in ("eq", "ne"):
                e = v == 0
                return Const(e if op == "eq" else not e)
            raise Undecided("order on complex numbers")
        e = v == 0
        return Const({"lt": v < 0 and not e, "le": v < 0 or e, "gt": v > 0 and not e, "ge": v > 0 or e, "eq": e, "ne": not e}[op])
    ts = terms(d)
    if all(all(_idem(x) for x, _ in m) for m in ts) and len(ts) <= 64:
        ats = sorted({x for m in ts for x, _ in m}, key=lambda x: x.h)
        if len(ats) <= 6:
            r = {}
            # exact truth table over indicator atoms
            acc = FALSE
            for bits in itertools.product((0, 1), repeat=len(ats)):
                env = dict(zip(ats, bits))
                v = 0
                for m, c in ts.items():
                    k = c
                    for x, _ in m:
                        k = k * env[x]
                    v += k
                if isinstance(v, complex):
                    v = abs(v)
                    if op not in ("eq", "ne"):
                        raise Undecided("order on complex")
                e = abs(v) < 1e-12
                ok = {"lt": v < 0 and not e, "le": v < 0 or e, "gt": v > 0 and not e, "ge": v > 0 or e, "eq": e, "ne": not e}[op]
                if ok:
                    t = TRUE
                    for x, bb in env.items():
                        t = b_and(t, x if bb else b_not(x))
                    acc = _asbool(mk_poly(_sum(terms(acc), terms(t)), "bool")) if not isinstance(acc, Const) or acc.v else t
            return acc
    if op in ("eq", "ne"):
        q, _ = normsign(d)
        r = App("zero", (q,), "bool")
        return r if op == "eq" else b_not(r)
    if op == "gt":
        return App("pos", (_pn(d),), "bool")
    if op == "lt":
        return App("pos", (_pn(neg(d)),), "bool")
    if op == "le":
        return b_not(App("pos", (_pn(d),), "bool"))
    return b_not(App("pos", (_pn(neg(d)),), "bool"))


def _sum(a, b):
    d = dict(a)
    for m, c in b.items():
        _acc(d, m, c)
    return d


def _pn(p):
    k = leading(terms(p))
    if isinstance(k, complex):
        return p
    k = abs(k)
    return scale(p, 1 / k) if k != 1 else p


def as_bits(v):
    if isinstance(v, BitsV):
        return v.bits
    if isinstance(v, Const) and isinstance(v.v, (int, bool)) and v.v >= 0:
        n = int(v.v)
        return tuple(Const((n >> i) & 1) for i in range(n.bit_length()))
    if isinstance(v, Const) and isinstance(v.v, float) and v.v == int(v.v) and v.v >= 0:
        return as_bits(Const(int(v.v)))
    if is_bool(v):
        return (as01(v),)
    return None


def as01(v):
    """boolean -> 0/1 number"""
    if isinstance(v, Const):
        return Const(int(bool(v.v)))
    if isinstance(v, Poly):
        return Poly(v.terms, "int")
    return v


def asbool01(v):
    """0/1 number -> boolean"""
    if isinstance(v, Const):
        return Const(bool(v.v))
    if isinstance(v, Poly):
        return Poly(v.terms, "bool")
    return v


def _biteq(p, q):
    if isinstance(p, Const) and isinstance(q, Const):
        return Const(p.v == q.v)
    if isinstance(p, Const):
        p, q = q, p
    p = asbool01(p)
    if isinstance(q, Const):
        return p if q.v else b_not(p)
    q = asbool01(q)
    return b_not(b_xor(p, q))


# ------------------------------------------------------------------ substitution
def subst(v, m):
    """replace atoms by values (m: dict atom -> Val); rebuilds bottom-up"""
    if not m:
        return v
    memo = {}

    def go(x):
        if not isinstance(x, Val):
            return x
        if x in m:
            return m[x]
        if isinstance(x, (Const, Sym, Ref, Opaque, ExtV, BltV, ModV, ClassV, FuncV, HookV)):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if isinstance(x, Poly):
            acc = Const(0)
            for mono, c in x.terms:
                t = Const(c)
                for a, n in mono:
                    t = mul(t, power(go(a), Const(n)))
                acc = add(acc, t)
            r = acc
            if x.ty == "bool":
                r = asbool01(intize(r)) if is_num(r) else r
        elif isinstance(x, App):
            r = rebuild(x, tuple(go(a) for a in x.args))
        elif isinstance(x, Tup):
            r = Tup(go(a) for a in x.items)
        elif isinstance(x, Ite):
            r = ite(go(x.c), go(x.a), go(x.b))
        elif isinstance(x, BitsV):
            r = BitsV(intize(as01(go(b))) for b in x.bits)
        else:
            r = x
        memo[x] = r
        return r
    return go(v)


def rebuild(x, args):
    if args == x.args:
        return x
    if x.op in ("sin", "cos", "sqrt", "abs", "exp"):
        return func1(x.op, args[0])
    if x.op == "zero":
        return cmp_num("eq", args[0], Const(0))
    if x.op == "pos":
        return cmp_num("gt", args[0], Const(0))
    if x.op == "conj":
        return conj(args[0])
    if x.op == "paren":
        return args[0]
    if x.op == "eq" and args[0] == args[1]:
        return TRUE
    return App(x.op, args, x.ty)


def atoms_in(v, acc=None):
    """all leaves/sub-applications of a value"""
    acc = set() if acc is None else acc
    stack = [v]
    while stack:
        x = stack.pop()
        if not isinstance(x, Val) or x in acc:
            continue
        acc.add(x)
        if isinstance(x, App):
            stack.extend(a for a in x.args if isinstance(a, Val))
        elif isinstance(x, Poly):
            for m, _ in x.terms:
                stack.extend(a for a, _ in m)
        elif isinstance(x, Tup):
            stack.extend(x.items)
        elif isinstance(x, Ite):
            stack.extend((x.c, x.a, x.b))
        elif isinstance(x, BitsV):
            stack.extend(x.bits)
        elif isinstance(x, SliceV):
            stack.extend((x.lo, x.hi, x.st))
        elif isinstance(x, BoundV):
            stack.extend((x.self_,))
        elif isinstance(x, MethV):
            stack.append(x.self_)
    return acc


def has_opaque(v):
    return any(isinstance(x, Opaque) for x in atoms_in(v))


# ------------------------------------------------------------------ printing
_SHOWN = {}


def show(v, depth=0):
    if not isinstance(v, Val):
        return repr(v)
    if depth > 12:
        return "..."
    if depth == 0 or not isinstance(v, (App, Poly, Ite, Tup)):
        return _show(v, depth)
    k = (v, depth)
    r = _SHOWN.get(k)
    if r is None:
        r = _show(v, depth)
        if len(r) > 4000:      # shared subterms: keep the text of a form bounded
            r = r[:3900] + "..#" + hashlib.md5(r.encode("utf8", "replace")).hexdigest()[:12]
        if len(_SHOWN) > 100000:
            _SHOWN.clear()
        _SHOWN[k] = r
    return r


def _show(v, depth):
    s = lambda x: show(x, depth + 1)
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, App):
        if v.op == "getitem":
            return "%s[%s]" % (s(v.args[0]), ",".join(s(a) for a in v.args[1:]))
        if v.op == "attr":
            return "%s.%s" % (s(v.args[0]), v.args[1])
        return "%s(%s)" % (v.op, ", ".join(s(a) for a in v.args))
    if isinstance(v, Poly):
        out = []
        for m, c in sorted(v.terms, key=lambda t: (len(t[0]), str([(s(a), n) for a, n in t[0]]))):
            fs = [s(a) + ("" if n == 1 else "^%d" % n) for a, n in m]
            cs = ("%g" % c) if isinstance(c, (int, float)) else str(c)
            if fs and c == 1:
                cs = ""
            elif fs and c == -1:
                cs = "-"
            out.append(cs + ("*" if cs not in ("", "-") and fs else "") + "*".join(fs))
        return "(" + " + ".join(out) + ")"
    if isinstance(v, Ite):
        return "(%s if %s else %s)" % (s(v.a), s(v.c), s(v.b))
    if isinstance(v, Tup):
        return "(" + ", ".join(s(a) for a in v.items) + ")"
    if isinstance(v, Ref):
        return "<obj%d>" % v.id
    if isinstance(v, FuncV):
        return "<function %s>" % v.qual
    if isinstance(v, BoundV):
        return "<bound %s>" % s(v.func)
    if isinstance(v, ClassV):
        return "<class %s>" % v.info.name
    if isinstance(v, (ExtV, BltV, ModV)):
        return v.name
    if isinstance(v, MethV):
        return "%s.%s" % (s(v.self_), v.name)
    if isinstance(v, HookV):
        return v.name
    if isinstance(v, SliceV):
        return "%s:%s:%s" % (s(v.lo), s(v.hi), s(v.st))
    if isinstance(v, BitsV):
        return "bits[%s]" % ",".join(s(b) for b in v.bits)
    if isinstance(v, Opaque):
        return "?" + v.why
    return object.__repr__(v)
