"""Call models: builtins, methods of builtin containers, standard library, numpy / scipy."""
import builtins
import itertools
import collections
import math

from .state import *
from .vals import *

L = None      # the lib module (set by lib.py)

PYTYPES = {"int": int, "float": float, "complex": complex, "str": str, "bool": bool, "bytes": bytes}


def truthv(ip, v, fr, st, node):
    return L.truth(ip, v, fr, st, node)


def elems(ip, v, fr, st, node):
    return ip.iter_elems(v, fr, st, node, soft=True)


def mklist(st, el, kind="list"):
    return st.new(ListRec(el, owner="fresh", kind=kind))


def unk_iter(st, op, *args):
    if any(has_opaque(a) for a in args):
        return st.new(ListRec(None, Opaque(op), owner="fresh", kind="iter"))
    return st.new(ListRec(None, App(op, args, "seq"), owner="fresh", kind="iter"))


# ============================================================================ isinstance
def class_names(t, ip=None):
    if isinstance(t, Tup):
        return [n for x in t.items for n in class_names(x)]
    return [t]


def isinst(ip, v, t, fr, st, node):
    if isinstance(t, Tup):
        while any(isinstance(x, Tup) for x in t.items):
            t = Tup(y for x in t.items for y in (x.items if isinstance(x, Tup) else (x,)))
        r = FALSE
        for x in t.items:
            r = b_or(r, isinst(ip, v, x, fr, st, node))
        if not isinstance(r, Const) and tyof(v) == "num":
            names = {getattr(x, "name", None) for x in t.items}
            if {"int", "float", "complex"} <= names and "numpy.number" in names:
                return TRUE
        return r
    if isinstance(t, WrapV) or isinstance(t, App) and t.op == "union":
        return App("isinstance", (v, t), "bool")
    if isinstance(v, Ite):
        return b_or(b_and(v.c, isinst(ip, v.a, t, fr, st, node)), b_and(b_not(v.c), isinst(ip, v.b, t, fr, st, node)))
    if isinstance(t, BoundV):
        raise Undecided("isinstance class")
    tname = getattr(t, "name", None)
    if isinstance(v, Ref):
        r = st.rec(v)
        if isinstance(r, ObjRec):
            if isinstance(t, ClassV):
                return Const(r.cls.subclass_of(t.info))
            if isinstance(t, (BltV, ExtV)):
                if tname == "object":
                    return TRUE
                if tname in r.cls.ext_bases():
                    return TRUE
                if isinstance(t, BltV) or t.name.split(".")[0] == "numpy":
                    for b in r.cls.ext_bases():
                        x, y = getattr(builtins, b, None), getattr(builtins, tname, None)
                        if isinstance(x, type) and isinstance(y, type) and issubclass(x, y):
                            return TRUE
                    return FALSE
                return App("isinstance", (v, t), "bool")
        k = None
        if isinstance(r, ListRec):
            k = {"list": ("list",), "iter": ("generator",)}.get(r.kind, (r.kind,))
        elif isinstance(r, DictRec):
            k = {"dict": ("dict",), "set": ("set",), "defaultdict": ("dict", "collections.defaultdict"),
                 "OrderedDict": ("dict", "collections.OrderedDict"), "frozenset": ("frozenset",)}.get(r.kind, (r.kind,))
        elif isinstance(r, ArrRec):
            if r.kind == "sparse":
                return Const(bool(tname) and ("sparse" in tname or tname == "object"))
            k = ("numpy.ndarray",)
        if k is not None:
            if tname in k or tname == "object":
                return TRUE
            abc = {"list": ("Sequence", "MutableSequence", "Iterable", "Collection", "Sized"),
                   "dict": ("Mapping", "MutableMapping", "Iterable", "Collection", "Sized"),
                   "set": ("Set", "MutableSet", "Iterable", "Collection", "Sized"),
                   "frozenset": ("Set", "Iterable", "Collection", "Sized"),
                   "generator": ("Iterator", "Iterable", "Generator"),
                   "numpy.ndarray": ("Iterable", "Sized", "Collection")}.get(k[0], ())
            if tname and tname.split(".")[-1] in abc and "." in tname:
                return TRUE
            return FALSE
    if isinstance(v, Tup):
        if tname in ("tuple", "object") or (tname or "").split(".")[-1] in ("Sequence", "Iterable", "Collection", "Sized", "Hashable"):
            return TRUE
        return FALSE
    if isinstance(v, Const):
        if tname in ("numbers.Number", "numbers.Complex"):
            return Const(isinstance(v.v, (int, float, complex)))
        if tname == "numbers.Real":
            return Const(isinstance(v.v, (int, float)))
        if tname in ("numbers.Integral", "numbers.Rational"):
            return Const(isinstance(v.v, int))
        if isinstance(t, BltV):
            x = getattr(builtins, tname, None)
            return Const(isinstance(x, type) and isinstance(v.v, x))
        if isinstance(t, ExtV) and isinstance(v.v, str) and tname.split(".")[-1] in ("Sequence", "Iterable", "Collection", "Sized", "Hashable"):
            return TRUE
        return FALSE
    ty = tyof(v)
    if ty == "foreign":
        return Const(tname == "object")
    if isinstance(v, ClassV) or isinstance(v, BltV):
        return Const(tname in ("type", "object"))
    if isinstance(v, (FuncV, BoundV, HookV)):
        return Const(tname == "object" or (tname or "").endswith(("Callable", "FunctionType", "MethodType")))
    if isinstance(v, App) and v.op == "enum":
        if isinstance(t, ClassV):
            return Const(v.args[0].v == t.info.qual)
        return Const((tname or "").startswith("enum.") or tname == "object")
    if isinstance(v, App) and v.op == "range":
        return Const(tname in ("range", "object") or (tname or "").split(".")[-1] in ("Sequence", "Iterable", "Collection", "Sized"))
    if isinstance(v, App) and v.op == "path":
        return Const((tname or "").startswith("pathlib") or tname == "object")
    sub_ = {"int": ("int", "numbers.Integral", "numbers.Number", "numbers.Real", "numbers.Complex", "numbers.Rational"),
            "bool": ("bool", "int", "numbers.Integral", "numbers.Number", "numbers.Real", "numbers.Complex"),
            "float": ("float", "numbers.Real", "numbers.Number", "numbers.Complex"),
            "complex": ("complex", "numbers.Complex", "numbers.Number"), "str": ("str",),
            "npfloat": ("float", "numpy.floating", "numpy.float64", "numpy.number", "numpy.generic", "numbers.Real", "numbers.Number"),
            "npcomplex": ("complex", "numpy.complexfloating", "numpy.complex128", "numpy.number", "numpy.generic", "numbers.Number"),
            "npint": ("numpy.integer", "numpy.int64", "numpy.number", "numpy.generic", "numpy.signedinteger", "numbers.Integral", "numbers.Number"),
            "ndarray": ("numpy.ndarray",), "tuple": ("tuple",), "list": ("list",), "dict": ("dict",), "none": (), "seq": None, "num": None}
    if ty in sub_ and sub_[ty] is not None:
        return Const(tname in sub_[ty] or tname == "object")
    if ty == "num":
        if tname in ("numbers.Number", "object"):
            return TRUE
        if isinstance(t, ClassV) or tname in ("str", "list", "tuple", "dict", "set", "numpy.ndarray", "bytes"):
            return FALSE
    if tname == "object":
        return TRUE
    return App("isinstance", (L.freeze(ip, v, st), t), "bool")


def hashv(ip, v, fr, st, node):
    if isinstance(v, Tup):
        return App("hash", (Tup(hashv(ip, x, fr, st, node) for x in v.items),), "int")
    if isinstance(v, Ite):
        return ite(v.c, hashv(ip, v.a, fr, st, node), hashv(ip, v.b, fr, st, node))
    if isinstance(v, Ref):
        r = st.rec(v)
        if isinstance(r, ObjRec):
            for c in r.cls.mro():
                if "__hash__" in c.attrs:
                    h = c.attrs["__hash__"]
                    if h == NONE:
                        ip.raise_now("TypeError", fr, st, node)
                    hv = ip.call(BoundV(h, v), [], {}, fr, st, node)
                    if isinstance(hv, (Tup, Const)) and not (isinstance(hv, Const) and isinstance(hv.v, int)):
                        ip.raise_now("TypeError", fr, st, node)
                    return hv
                if "__eq__" in c.attrs:
                    ip.raise_now("TypeError", fr, st, node)
            return App("hash", (v,), "int")
        if isinstance(r, DictRec) and r.kind == "frozenset":
            if r.items is None:
                return App("hash", (L.freeze(ip, v, st),), "int")
            hs = [hashv(ip, k, fr, st, node) for k, _ in r.items]
            return App("hash", (App("frozenset", tuple(sorted(hs, key=show))),), "int")
        if isinstance(r, ListRec) and r.kind == "iter":
            return App("hash", (v,), "int")
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, Const):
        if isinstance(v.v, bool):
            return Const(int(v.v))
        if isinstance(v.v, float) and v.v == int(v.v):
            return Const(int(v.v))
        return v if isinstance(v.v, int) else App("hash", (v,), "int")
    if tyof(v) == "ndarray":
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, App) and v.op == "hash":
        return v
    return App("hash", (v,), "int")


# ============================================================================ numbers
def to_int(ip, v, fr, st, node):
    if isinstance(v, Const):
        try:
            return Const(int(v.v))
        except (TypeError, ValueError, OverflowError) as e:
            ip.raise_now(type(e).__name__, fr, st, node)
    if isinstance(v, BitsV):
        return v
    if is_bool(v):
        return as01(v)
    t = tyof(v)
    if t in ("int", "npint"):
        return v
    if isinstance(v, Opaque):
        return Opaque("int", "int")
    if isinstance(v, Ref):
        g = L.arr_get(ip, st, v)
        if g is not None and len(g[1]) == 1:
            return to_int(ip, g[1][0], fr, st, node)
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, Tup) or t in ("foreign", "complex"):
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, App) and v.op in ("rint", "floor", "ceil", "round", "trunc"):
        return App(v.op, v.args, "int")
    if isinstance(v, Poly):
        w = intize(v)
        if all(isinstance(c, int) for _, c in w.terms) and all(_idem_atom(a) for m, _ in w.terms for a, _ in m):
            return Poly(w.terms, "int")
    return App("int", (v,), "int")


def _idem_atom(a):
    return isinstance(a, (Sym, App)) and a.ty in ("bool", "int", "npint")


def to_float(ip, v, fr, st, node, cx=False):
    if isinstance(v, Const):
        try:
            return Const(complex(v.v) if cx else float(v.v))
        except (TypeError, ValueError, OverflowError) as e:
            ip.raise_now(type(e).__name__, fr, st, node)
    if isinstance(v, Tup) or tyof(v) == "foreign" or (not cx and tyof(v) == "complex"):
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, Ref):
        g = L.arr_get(ip, st, v)
        if g is not None and len(g[1]) == 1:
            return to_float(ip, g[1][0], fr, st, node, cx)
        return Opaque("float", "float")
    if is_bool(v):
        return as01(v)
    if is_num(v):
        return v
    return App("float", (L.freeze(ip, v, st),), "complex" if cx else "float")


def rnd(v, nd=None):
    if isinstance(v, Const):
        try:
            return Const(round(v.v, nd) if nd is not None else round(v.v))
        except TypeError:
            return App("round", (v,), "num")
    if isinstance(v, Opaque):
        return Opaque("round", "num")
    if tyof(v) == "int":
        return v
    return App("rint" if nd in (None, 0) else "round", (v,) if nd in (None, 0) else (v, Const(nd)), "int" if nd is None else "float")


def do_abs(ip, v, fr, st, node):
    if isinstance(v, Ref):
        return map_arr(ip, v, "abs", fr, st)
    if isinstance(v, Opaque):
        return Opaque("abs", "num")
    if isinstance(v, Const) and not isinstance(v.v, (int, float, complex)):
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, BitsV):
        return v
    if not is_num(v):
        return App("abs", (L.freeze(ip, v, st),), "num")
    p = st.decide(cmp_num("ge", v, Const(0))) if tyof(v) in ("int", "float") else None
    if p is not None:
        return v if p else neg(v)
    return func1("abs", v)


def map_arr(ip, v, name, fr, st):
    g = L.arr_get(ip, st, v)
    if g is not None and all(is_num(x) or isinstance(x, Opaque) for x in g[1]):
        return L.scalar_or_arr(st, g[0], [Opaque(name, "num") if isinstance(x, Opaque) else func1(name, x) for x in g[1]])
    e = L.arr_expr(ip, st, v)
    if isinstance(e, Opaque):
        return L.new_arr(st, expr=Opaque(name, "ndarray")) if L.is_arr(st, v) else Opaque(name, "num")
    if L.is_arr(st, v) or isinstance(v, (Ref, Tup)):
        return L.new_arr(st, expr=App("np." + name, (e,), "ndarray"))
    return func1(name, e) if is_num(e) else App(name, (e,), "num")


def minmax(ip, name, vals, key, fr, st, node, default=None):
    if not vals:
        if default is not None:
            return default
        ip.raise_now("ValueError", fr, st, node)
    ks = [ip.call(key, [v], {}, fr, st, node) for v in vals] if key not in (None, NONE) else list(vals)
    if any(isinstance(k, Opaque) for k in ks):
        return Opaque(name, "num" if all(tyof(v) in NUMT for v in vals) else "any")
    best = 0
    for i in range(1, len(vals)):
        c = L.rich_compare(ip, "lt" if name == "min" else "gt", ks[i], ks[best], fr, st, node)
        d = st.decide(truthv(ip, c, fr, st, node))
        if d is None:
            if all(is_num(k) for k in ks) and key in (None, NONE):
                return App(name, tuple(sorted(set(ks), key=lambda x: (show(x), x.h))), "num")
            return Opaque(name)
        if d:
            best = i
    return vals[best]


def do_sort(ip, vals, key, reverse, fr, st, node):
    """stable sort; None when a comparison is undecided"""
    ks = [ip.call(key, [v], {}, fr, st, node) for v in vals] if key not in (None, NONE) else list(vals)
    rev = truthv(ip, reverse, fr, st, node) if reverse is not None else FALSE
    if not isinstance(rev, Const):
        return None
    out = []
    idx = list(range(len(vals)))
    if rev.v:
        idx.reverse()
    for i in idx:
        j = len(out)
        while j > 0:
            c = st.decide(truthv(ip, L.rich_compare(ip, "lt", ks[i], ks[out[j - 1]], fr, st, node), fr, st, node))
            if c is None:
                return None
            if not c:
                break
            j -= 1
        out.insert(j, i)
    if rev.v:
        out.reverse()
    return [vals[i] for i in out]


# ============================================================================ builtins
def call_builtin(ip, f, args, kw, fr, st, node):
    if isinstance(f, BltV):
        h = globals().get("b__" + f.name)
        if h is not None:
            return h(ip, list(args), dict(kw), fr, st, node)
        c = getattr(builtins, f.name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            from .interp import ExcVal
            return ExcVal(f, tuple(L.freeze(ip, a, st) for a in args))
        return Opaque("builtin " + f.name)
    if isinstance(f, MethV):
        return call_method(ip, f.self_, f.name, list(args), dict(kw), fr, st, node)
    if isinstance(f, ExtV):
        return call_ext(ip, f.name, list(args), dict(kw), fr, st, node)
    if isinstance(f, App) and f.op == "decorator":
        # parametrised decorator applied as a function
        if f.args[0] in ("numba", "wraps"):
            return args[0]
        if f.args[0] in ("lru_cache", "cache"):
            return WrapV("cache", args[0], ())
    if isinstance(f, App) and f.op == "objectmeth":
        return call_method(ip, args[0], f.args[0].v, list(args[1:]), kw, fr, st, node)
    if isinstance(f, App) and f.op == "itemgetter":
        v = [L.getitem(ip, args[0], i, fr, st, node) for i in f.args]
        return v[0] if len(v) == 1 else Tup(v)
    if isinstance(f, App) and f.op == "attrgetter":
        out = []
        for a in f.args:
            v = args[0]
            for n in a.v.split("."):
                v = ip.getattr(v, n, fr, st, node)
            out.append(v)
        return out[0] if len(out) == 1 else Tup(out)
    if isinstance(f, App) and f.op == "methodcaller":
        return ip.call(ip.getattr(args[0], f.args[0].v, fr, st, node), list(f.args[1:]), kw, fr, st, node)
    if isinstance(f, (Tup, Poly, BitsV)):
        ip.raise_now("TypeError", fr, st, node)
    log_call(ip, show(f), args, kw, fr, st, node)
    if isinstance(f, (Sym, App)) and f.ty in ("any", "callable") and not kw:
        fa = tuple(L.freeze(ip, a, st) for a in args)
        if not any(has_opaque(a) for a in fa):
            return App("call", (f,) + fa, "any")
    return Opaque("call of unknown")


def log_call(ip, name, args, kw, fr, st, node):
    st.effects = st.effects + (("call:" + name, (tuple(L.freeze(ip, a, st) for a in args), tuple(sorted((k, L.freeze(ip, v, st)) for k, v in kw.items() if isinstance(v, Val)))),
                               ip.where(node, fr)),)


def b__len(ip, args, kw, fr, st, node):
    v = args[0]
    if isinstance(v, Ite):
        return ip.fork(v.c, lambda s: b__len(ip, [v.a], kw, fr, s, node), lambda s: b__len(ip, [v.b], kw, fr, s, node), st)
    if isinstance(v, Tup):
        return Const(len(v.items))
    if isinstance(v, Const):
        if isinstance(v.v, (str, bytes)):
            return Const(len(v.v))
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, MethV) and v.name in ("<keys>", "<values>", "<items>"):
        return b__len(ip, [v.self_], kw, fr, st, node)
    if isinstance(v, App) and v.op == "range":
        if all(isinstance(a, Const) for a in v.args):
            return Const(len(range(*[a.v for a in v.args])))
        return App("len", (v,), "int")
    if isinstance(v, Ref):
        r = st.rec(v)
        if isinstance(r, ListRec):
            if r.kind == "iter":
                ip.raise_now("TypeError", fr, st, node)
            if r.elems is not None:
                return Const(len(r.elems))
            return lenof(r.sym)
        if isinstance(r, DictRec):
            if r.items is not None:
                return Const(len(r.items))
            return lenof(r.sym)
        if isinstance(r, ArrRec):
            g = L.arr_get(ip, st, v)
            if g is not None and g[0]:
                return Const(g[0][0])
            if g is not None:
                ip.raise_now("TypeError", fr, st, node)
            if r.shape:
                return Const(r.shape[0])
            return lenof(r.expr)
        f, _ = r.cls.lookup("__len__")
        if f is None:
            if r.cls.ext_bases():
                return Opaque("len", "int")
            ip.raise_now("TypeError", fr, st, node)
        return ip.call(BoundV(f, v), [], {}, fr, st, node)
    if isinstance(v, ClassV) and v.info.enum:
        return Const(len(elems(ip, v, fr, st, node)))
    if tyof(v) in NUMT or tyof(v) == "foreign":
        ip.raise_now("TypeError", fr, st, node)
    return lenof(v)


def lenof(e):
    if e is None or isinstance(e, Opaque):
        return Opaque("len", "int")
    if isinstance(e, App):
        if e.op == "map":
            return lenof(e.args[1])
        if e.op in ("list", "tuple"):
            return Const(len(e.args))
        if e.op == "arr":
            return e.args[0].items[0]
        if e.op == "zeros" and e.args:
            s = e.args[0]
            return s.items[0] if isinstance(s, Tup) else s
        if e.op in ("sorted", "tolist"):
            return lenof(e.args[0])
    if isinstance(e, Tup):
        return Const(len(e.items))
    return App("len", (e,), "int")


def b__tuple(ip, args, kw, fr, st, node):
    if not args:
        return Tup(())
    el = elems(ip, args[0], fr, st, node)
    if el is None:
        e = L.freeze(ip, args[0], st)
        return Opaque("tuple", "tuple") if isinstance(e, Opaque) else App("tuple", (e,), "tuple")
    return Tup(el)


def b__list(ip, args, kw, fr, st, node):
    if not args:
        return mklist(st, ())
    el = elems(ip, args[0], fr, st, node)
    if el is None:
        e = L.freeze(ip, args[0], st)
        return st.new(ListRec(None, e if not isinstance(e, Opaque) else Opaque("list"), owner="fresh"))
    return mklist(st, el)


def b__dict(ip, args, kw, fr, st, node):
    ref = st.new(DictRec((), owner="fresh"))
    eff = st.effects
    if args:
        a = args[0]
        r = st.heap.get(a.id) if isinstance(a, Ref) else None
        if isinstance(r, DictRec):
            st.heap[ref.id] = DictRec(r.items, r.sym, owner="fresh")
        else:
            el = elems(ip, a, fr, st, node)
            if el is None:
                e = L.freeze(ip, a, st)
                st.heap[ref.id] = DictRec(None, App("dict", (e,), "dict") if not has_opaque(e) else Opaque("dict"), owner="fresh")
                return ref
            for p in el:
                pe = elems(ip, p, fr, st, node)
                if pe is None:
                    pe = [L.getitem(ip, p, Const(0), fr, st, node), L.getitem(ip, p, Const(1), fr, st, node)]
                if len(pe) != 2:
                    ip.raise_now("ValueError", fr, st, node)
                L.setitem(ip, ref, pe[0], pe[1], fr, st, node)
    for k, v in kw.items():
        L.setitem(ip, ref, Const(k), v, fr, st, node)
    st.effects = eff + tuple(e for e in st.effects[len(eff):] if e[0] != ref.id)
    return ref


def _mkset(ip, args, fr, st, node, kind):
    if not args:
        return st.new(DictRec((), owner="fresh", kind=kind))
    el = elems(ip, args[0], fr, st, node)
    if el is None:
        e = L.freeze(ip, args[0], st)
        return st.new(DictRec(None, App("set", (e,), "set") if not has_opaque(e) else Opaque("set"), owner="fresh", kind=kind))
    return L.make_set(ip, el, fr, st, node, kind)


def b__set(ip, args, kw, fr, st, node):
    return _mkset(ip, args, fr, st, node, "set")


def b__frozenset(ip, args, kw, fr, st, node):
    return _mkset(ip, args, fr, st, node, "frozenset")


def b__range(ip, args, kw, fr, st, node):
    vals = []
    for a in args:
        if isinstance(a, Const) and isinstance(a.v, bool):
            a = Const(int(a.v))
        if isinstance(a, Const) and not isinstance(a.v, int) or isinstance(a, Tup) or tyof(a) in ("float", "foreign"):
            ip.raise_now("TypeError", fr, st, node)
        vals.append(a)
    lo, hi, step = Const(0), None, Const(1)
    if len(vals) == 1:
        hi = vals[0]
    elif len(vals) == 2:
        lo, hi = vals
    else:
        lo, hi, step = vals
    if isinstance(step, Const) and step.v == 0:
        ip.raise_now("ValueError", fr, st, node)
    return App("range", (lo, hi, step), "range")


def b__enumerate(ip, args, kw, fr, st, node):
    start = args[1] if len(args) > 1 else kw.get("start", Const(0))
    el = elems(ip, args[0], fr, st, node)
    if el is None:
        return unk_iter(st, "enumerate", L.freeze(ip, args[0], st))
    return mklist(st, [Tup((add(start, Const(i)), x)) for i, x in enumerate(el)], "iter")


def nth(e, i):
    """item i of an endless iterator"""
    return e.args[i % len(e.args)] if e.op == "cycle" else add(e.args[0], mul(Const(i), e.args[1]))


def b__zip(ip, args, kw, fr, st, node):
    els = []
    unknown = False
    for a in args:
        if isinstance(a, App) and a.op in ("count", "cycle"):
            els.append(a)
            continue
        e = elems(ip, a, fr, st, node)
        if e is None:
            unknown = True
        els.append(e)
    if unknown:
        return unk_iter(st, "zip", *[L.freeze(ip, a, st) for a in args])
    fin = [len(e) for e in els if isinstance(e, list)]
    if not fin:
        if not args:
            return mklist(st, (), "iter")
        raise Undecided("infinite zip")
    n = min(fin)
    if kw.get("strict") == TRUE and len(set(fin)) > 1:
        ip.raise_now("ValueError", fr, st, node)
    return mklist(st, [Tup(e[i] if isinstance(e, list) else nth(e, i) for e in els) for i in range(n)], "iter")


def b__reversed(ip, args, kw, fr, st, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.rec(v), ObjRec):
        f, _ = st.rec(v).cls.lookup("__reversed__")
        if f is not None:
            return ip.call(BoundV(f, v), [], {}, fr, st, node)
    el = elems(ip, v, fr, st, node)
    if el is None:
        return unk_iter(st, "reversed", L.freeze(ip, v, st))
    return mklist(st, el[::-1], "iter")


def b__sorted(ip, args, kw, fr, st, node):
    el = elems(ip, args[0], fr, st, node)
    if el is None:
        e = L.freeze(ip, args[0], st)
        return st.new(ListRec(None, Opaque("sorted") if isinstance(e, Opaque) else App("sorted", (e,), "seq"), owner="fresh"))
    out = do_sort(ip, el, kw.get("key"), kw.get("reverse"), fr, st, node)
    if out is None:
        return st.new(ListRec(None, Opaque("sorted with undecided order"), owner="fresh"))
    return mklist(st, out)


def b__map(ip, args, kw, fr, st, node):
    els = [elems(ip, a, fr, st, node) for a in args[1:]]
    if any(e is None for e in els):
        if len(args) == 2:
            bv = Sym("bound", "any")
            v = ip.call(args[0], [bv], {}, fr, st, node)
            return st.new(ListRec(None, App("map", (L.freeze(ip, v, st), L.freeze(ip, args[1], st)), "seq"), owner="fresh", kind="iter"))
        return unk_iter(st, "map", *[L.freeze(ip, a, st) for a in args])
    return mklist(st, [ip.call(args[0], list(t), {}, fr, st, node) for t in zip(*els)], "iter")


def b__filter(ip, args, kw, fr, st, node):
    el = elems(ip, args[1], fr, st, node)
    if el is None:
        return unk_iter(st, "filter", Opaque("filter"))
    out = []
    for x in el:
        c = truthv(ip, x if args[0] == NONE else ip.call(args[0], [x], {}, fr, st, node), fr, st, node)
        d = st.decide(c)
        if d is None:
            return unk_iter(st, "filter", Opaque("filter"))
        if d:
            out.append(x)
    return mklist(st, out, "iter")


def _anyall(ip, args, fr, st, node, isany):
    el = elems(ip, args[0], fr, st, node)
    if el is None:
        e = L.freeze(ip, args[0], st)
        if has_opaque(e):
            return Sym("any%d" % next(L.st_ids()), "bool")
        return App("any" if isany else "all", (e,), "bool")
    r = FALSE if isany else TRUE
    for x in el:
        c = truthv(ip, x, fr, st, node)
        r = b_or(r, c) if isany else b_and(r, c)
    return r


def b__all(ip, args, kw, fr, st, node):
    return _anyall(ip, args, fr, st, node, False)


def b__any(ip, args, kw, fr, st, node):
    return _anyall(ip, args, fr, st, node, True)


def b__sum(ip, args, kw, fr, st, node):
    start = args[1] if len(args) > 1 else kw.get("start", Const(0))
    el = elems(ip, args[0], fr, st, node)
    if el is None:
        e = L.freeze(ip, args[0], st)
        return Opaque("sum", "num") if has_opaque(e) else App("sum", (e, start), "num")
    acc = start
    for x in el:
        acc = L.binop(ip, "Add", acc, x, fr, st, node)
    return acc


def _mm(ip, name, args, kw, fr, st, node):
    if len(args) == 1:
        el = elems(ip, args[0], fr, st, node)
        if el is None:
            e = L.freeze(ip, args[0], st)
            return Opaque(name, "num") if has_opaque(e) else App(name, (e,), "num")
        return minmax(ip, name, el, kw.get("key"), fr, st, node, kw.get("default"))
    return minmax(ip, name, args, kw.get("key"), fr, st, node)


def b__min(ip, args, kw, fr, st, node):
    return _mm(ip, "min", args, kw, fr, st, node)


def b__max(ip, args, kw, fr, st, node):
    return _mm(ip, "max", args, kw, fr, st, node)


def b__abs(ip, args, kw, fr, st, node):
    return do_abs(ip, args[0], fr, st, node)


def b__int(ip, args, kw, fr, st, node):
    if not args:
        return Const(0)
    if len(args) > 1 or kw:
        args = list(args) + [kw["base"]] if "base" in kw else args
        if len(args) == 2 and all(isinstance(a, Const) for a in args):
            try:
                return Const(int(args[0].v, args[1].v))
            except (ValueError, TypeError) as e:
                ip.raise_now(type(e).__name__, fr, st, node)
        return App("int", tuple(args), "int")
    return to_int(ip, args[0], fr, st, node)


def b__float(ip, args, kw, fr, st, node):
    return to_float(ip, args[0], fr, st, node) if args else Const(0.0)


def b__complex(ip, args, kw, fr, st, node):
    if len(args) == 2:
        return add(args[0], mul(args[1], Const(1j)))
    return to_float(ip, args[0], fr, st, node, True) if args else Const(0j)


def b__bool(ip, args, kw, fr, st, node):
    return truthv(ip, args[0], fr, st, node) if args else FALSE


def b__str(ip, args, kw, fr, st, node):
    return L.to_str(ip, args[0], False, fr, st, node) if args else Const("")


def b__repr(ip, args, kw, fr, st, node):
    return L.to_str(ip, args[0], True, fr, st, node)


def b__format(ip, args, kw, fr, st, node):
    spec = args[1].v if len(args) > 1 and isinstance(args[1], Const) else "" if len(args) < 2 else None
    return L.fmt_piece(ip, args[0], "", spec, fr, st, node)


def b__round(ip, args, kw, fr, st, node):
    nd = args[1] if len(args) > 1 else kw.get("ndigits", NONE)
    if not isinstance(nd, Const):
        return App("round", (L.freeze(ip, args[0], st), nd), "float")
    return rnd(args[0], nd.v)


def b__isinstance(ip, args, kw, fr, st, node):
    return isinst(ip, args[0], args[1], fr, st, node)


def b__issubclass(ip, args, kw, fr, st, node):
    a, b = args
    bs = b.items if isinstance(b, Tup) else (b,)
    if isinstance(a, ClassV):
        return Const(any(isinstance(x, ClassV) and a.info.subclass_of(x.info) or getattr(x, "name", None) in a.info.ext_bases() + ["object"] for x in bs))
    if isinstance(a, BltV) and all(isinstance(x, BltV) for x in bs):
        return Const(issubclass(getattr(builtins, a.name), tuple(getattr(builtins, x.name) for x in bs)))
    return App("issubclass", (a, b), "bool")


def b__hash(ip, args, kw, fr, st, node):
    return hashv(ip, args[0], fr, st, node)


def b__id(ip, args, kw, fr, st, node):
    return App("id", (args[0],), "int")


def b__type(ip, args, kw, fr, st, node):
    v = args[0]
    if len(args) != 1:
        raise Undecided("type()")
    if isinstance(v, Ite):
        return ite(v.c, b__type(ip, [v.a], kw, fr, st, node), b__type(ip, [v.b], kw, fr, st, node))
    if isinstance(v, Ref):
        r = st.rec(v)
        if isinstance(r, ObjRec):
            return ClassV(r.cls)
        if isinstance(r, ListRec):
            return BltV("list") if r.kind == "list" else BltV("generator")
        if isinstance(r, DictRec):
            return BltV(r.kind)
        return ExtV("numpy.ndarray")
    if isinstance(v, Const):
        return BltV(type(v.v).__name__)
    if isinstance(v, Tup):
        return BltV("tuple")
    t = tyof(v)
    if t in PYTYPES:
        return BltV(t)
    if t in ("npfloat", "npint", "npcomplex", "ndarray"):
        return ExtV("numpy." + {"npfloat": "float64", "npint": "int64", "npcomplex": "complex128", "ndarray": "ndarray"}[t])
    if t == "foreign":
        return ExtV("foreign.type")
    if isinstance(v, App) and v.op == "enum":
        return App("type", (v.args[0],), "type")
    if isinstance(v, (ClassV, BltV)):
        return BltV("type")
    return App("type", (L.freeze(ip, v, st),), "type")


def b__getattr(ip, args, kw, fr, st, node):
    if isinstance(args[1], Const):
        if len(args) > 2:
            m = len(fr.exits)
            s2 = st.copy()
            try:
                return ip.getattr(args[0], args[1].v, fr, st, node, default=args[2])
            except Dead:
                del fr.exits[m:]
                st.become(s2)
                return args[2]
        return ip.getattr(args[0], args[1].v, fr, st, node)
    if isinstance(args[1], Ite):
        i = args[1]
        return ip.fork(i.c, lambda s: b__getattr(ip, [args[0], i.a] + args[2:], kw, fr, s, node), lambda s: b__getattr(ip, [args[0], i.b] + args[2:], kw, fr, s, node), st)
    raise Undecided("getattr with unknown name")


def b__hasattr(ip, args, kw, fr, st, node):
    v = args[0]
    if isinstance(args[1], Const):
        if isinstance(v, Ref) and isinstance(st.rec(v), ObjRec) or isinstance(v, (ClassV, ModV, Const, Tup)):
            m = len(fr.exits)
            s2 = st.copy()
            try:
                ip.getattr(v, args[1].v, fr, s2, node)
                ok = True
            except Dead:
                ok = False
            del fr.exits[m:]
            return Const(ok)
        if isinstance(v, Ref) and args[1].v in ("__iter__", "__len__", "__getitem__"):
            return TRUE
        if isinstance(v, Ref) and isinstance(st.rec(v), ListRec) and st.rec(v).kind == "list":
            return Const(hasattr(list, args[1].v))
        if isinstance(v, Ref) and isinstance(st.rec(v), DictRec) and st.rec(v).kind in ("dict", "set", "frozenset"):
            return Const(hasattr({"dict": dict, "set": set, "frozenset": frozenset}[st.rec(v).kind], args[1].v))
        if tyof(v) in NUMT and args[1].v in ("__iter__", "__len__", "__getitem__"):
            return FALSE
    return Sym("hasattr%d" % next(L.st_ids()), "bool")


def b__setattr(ip, args, kw, fr, st, node):
    if not isinstance(args[1], Const):
        raise Undecided("setattr with unknown name")
    ip.setattr(args[0], args[1].v, args[2], fr, st, node)
    return NONE


def b__print(ip, args, kw, fr, st, node):
    log_call(ip, "print", args, kw, fr, st, node)
    return NONE


def b__iter(ip, args, kw, fr, st, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec) and st.rec(v).kind == "iter":
        return v
    if isinstance(v, Ref) and isinstance(st.rec(v), ObjRec):
        f, _ = st.rec(v).cls.lookup("__iter__")
        if f is not None:
            return ip.call(BoundV(f, v), [], {}, fr, st, node)
    el = elems(ip, v, fr, st, node)
    if el is None:
        e = L.freeze(ip, v, st)
        return st.new(ListRec(None, e, owner="fresh", kind="iter"))
    return mklist(st, el, "iter")


def b__next(ip, args, kw, fr, st, node):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec):
        r = st.rec(v)
        if r.elems is None:
            return Opaque("next")
        if r.pos >= len(r.elems):
            if len(args) > 1:
                return args[1]
            ip.raise_now("StopIteration", fr, st, node)
        r2 = r.copy()
        r2.pos += 1
        st.heap[v.id] = r2
        return r.elems[r.pos]
    if isinstance(v, Ref) and isinstance(st.rec(v), ObjRec):
        f, _ = st.rec(v).cls.lookup("__next__")
        if f is not None:
            return ip.call(BoundV(f, v), [], {}, fr, st, node)
    return Opaque("next")


def b__divmod(ip, args, kw, fr, st, node):
    return Tup((L.binop(ip, "FloorDiv", args[0], args[1], fr, st, node), L.binop(ip, "Mod", args[0], args[1], fr, st, node)))


def b__pow(ip, args, kw, fr, st, node):
    m = args[2] if len(args) > 2 else kw.get("mod", NONE)
    if m != NONE:
        if all(isinstance(x, Const) and isinstance(x.v, int) for x in list(args[:2]) + [m]) and m.v and args[1].v >= 0:
            return Const(pow(args[0].v, args[1].v, m.v))
        raise Undecided("modular power")
    return L.binop(ip, "Pow", args[0], args[1], fr, st, node)


def b__callable(ip, args, kw, fr, st, node):
    v = args[0]
    if isinstance(v, (FuncV, BoundV, ClassV, BltV, HookV, WrapV, MethV)):
        return TRUE
    if isinstance(v, (Const, Tup)) or tyof(v) in NUMT or tyof(v) in ("str", "foreign"):
        return FALSE
    if isinstance(v, Ref):
        r = st.rec(v)
        return Const(isinstance(r, ObjRec) and r.cls.lookup("__call__")[0] is not None)
    return App("callable", (L.freeze(ip, v, st),), "bool")


def b__property(ip, args, kw, fr, st, node):
    fget = args[0] if args else kw.get("fget", NONE)
    fset = args[1] if len(args) > 1 else kw.get("fset")
    return WrapV("property", fget, (fset,) if fset is not None and fset != NONE else ())


def b__staticmethod(ip, args, kw, fr, st, node):
    return WrapV("staticmethod", args[0], ())


def b__classmethod(ip, args, kw, fr, st, node):
    return WrapV("classmethod", args[0], ())


def b__bin(ip, args, kw, fr, st, node):
    return Const(bin(args[0].v)) if isinstance(args[0], Const) else App("bin", (args[0],), "str")


def b__chr(ip, args, kw, fr, st, node):
    return Const(chr(args[0].v)) if isinstance(args[0], Const) else App("chr", (args[0],), "str")


def b__ord(ip, args, kw, fr, st, node):
    return Const(ord(args[0].v)) if isinstance(args[0], Const) else App("ord", (args[0],), "int")


def b__slice(ip, args, kw, fr, st, node):
    if len(args) == 1:
        return SliceV(NONE, args[0], NONE)
    return SliceV(args[0], args[1], args[2] if len(args) > 2 else NONE)


def b__open(ip, args, kw, fr, st, node):
    n = next(L.st_ids())
    v = App("file", (Const(n), L.freeze(ip, args[0], st)), "file")
    mode = args[1] if len(args) > 1 else kw.get("mode", Const("r"))
    buf = args[2] if len(args) > 2 else kw.get("buffering", Const(-1))
    if isinstance(mode, Const) and (not isinstance(mode.v, str) or not mode.v or set(mode.v) - set("rwaxbt+U")) or buf == Const(0) and isinstance(mode, Const) and "b" not in mode.v:
        ip.raise_now("TypeError" if not isinstance(mode.v, str) else "ValueError", fr, st, node)
    st.effects = st.effects + (("open", v, ip.where(node, fr)), ("open mode", (v, mode), ip.where(node, fr)))
    return v


def b__vars(ip, args, kw, fr, st, node):
    if args and isinstance(args[0], Ref) and isinstance(st.rec(args[0]), ObjRec):
        return st.new(DictRec(tuple((Const(k), v) for k, v in st.rec(args[0]).fields.items()), owner="fresh"))
    return Opaque("vars")


def b__globals(ip, args, kw, fr, st, node):
    return Opaque("globals()")


def b__super(ip, args, kw, fr, st, node):
    if len(args) == 2 and isinstance(args[0], ClassV):
        return App("super", (Const(args[0].info.qual), args[1], args[0]), "super")
    raise Undecided("super()")


def b__object(ip, args, kw, fr, st, node):
    return Sym("object%d" % next(L.st_ids()), "foreign")


def b__exit(ip, args, kw, fr, st, node):
    ip.raise_now("SystemExit", fr, st, node)


# ============================================================================ methods
def seq_methods(ip, o, r, name, args, kw, fr, st, node):
    w = ip.where(node, fr)
    r2 = r.copy()
    if name in ("append", "appendleft"):
        if r.elems is None:
            r2.sym = Opaque("list")
        else:
            r2.elems = r.elems + (args[0],) if name == "append" else (args[0],) + r.elems
        st.write(o, r2, name, w)
        return NONE
    if name in ("extend",):
        el = elems(ip, args[0], fr, st, node)
        if el is None or r.elems is None:
            r2.elems, r2.sym = None, Opaque("extended list")
        else:
            r2.elems = r.elems + tuple(el)
        st.write(o, r2, name, w)
        return NONE
    if name == "insert":
        if r.elems is None or not isinstance(args[0], Const):
            r2.elems, r2.sym = None, Opaque("list")
        else:
            l = list(r.elems)
            l.insert(args[0].v, args[1])
            r2.elems = tuple(l)
        st.write(o, r2, name, w)
        return NONE
    if name in ("pop", "popleft"):
        if r.elems is None:
            return Opaque("popped")
        i = 0 if name == "popleft" else (args[0].v if args and isinstance(args[0], Const) else -1 if not args else None)
        if i is None:
            r2.elems, r2.sym = None, Opaque("list")
            st.write(o, r2, name, w)
            return Opaque("popped")
        if not -len(r.elems) <= i < len(r.elems):
            ip.raise_now("IndexError", fr, st, node)
        l = list(r.elems)
        v = l.pop(i)
        r2.elems = tuple(l)
        st.write(o, r2, name, w)
        return v
    if name == "sort":
        out = None if r.elems is None else do_sort(ip, list(r.elems), kw.get("key"), kw.get("reverse"), fr, st, node)
        if out is None:
            r2.elems, r2.sym = None, Opaque("sorted with undecided order")
        else:
            r2.elems = tuple(out)
        st.write(o, r2, name, w)
        return NONE
    if name == "reverse":
        if r.elems is not None:
            r2.elems = r.elems[::-1]
        else:
            r2.sym = Opaque("list")
        st.write(o, r2, name, w)
        return NONE
    if name == "clear":
        r2.elems = ()
        st.write(o, r2, name, w)
        return NONE
    if name in ("copy", "__copy__"):
        return st.new(ListRec(r.elems, r.sym, owner="fresh", kind=r.kind))
    if name in ("index", "count", "remove"):
        if r.elems is None:
            return Opaque(name, "int")
        return seq_find(ip, o, r.elems, name, args, fr, st, node, w)
    if name in ("__getitem__",):
        return L.getitem(ip, o, args[0], fr, st, node)
    if name in ("__len__",):
        return b__len(ip, [o], {}, fr, st, node)
    if name in ("__iter__",):
        return b__iter(ip, [o], {}, fr, st, node)
    if name in ("__next__",):
        return b__next(ip, [o], {}, fr, st, node)
    if name in ("__contains__",):
        return L.contains(ip, o, args[0], fr, st, node)
    raise Undecided("list method " + name)


def seq_find(ip, o, el, name, args, fr, st, node, w):
    conds = [truthv(ip, L.rich_compare(ip, "eq", x, args[0], fr, st, node) if x != args[0] else TRUE, fr, st, node) for x in el]
    if name == "count":
        acc = Const(0)
        for c in conds:
            acc = add(acc, as01(c))
        return acc
    if name == "index":
        def go(i, s):
            if i == len(el):
                ip.raise_now("ValueError", fr, s, node)
            return ip.fork(conds[i], lambda t: Const(i), lambda t: go(i + 1, t), s)
        return go(0, st)
    ds = [st.decide(c) for c in conds]
    if None in ds:
        raise Undecided("list.remove")
    if True not in ds:
        ip.raise_now("ValueError", fr, st, node)
    k = ds.index(True)
    r2 = st.rec(o).copy()
    r2.elems = r2.elems[:k] + r2.elems[k + 1:]
    st.write(o, r2, name, w)
    return NONE


def dict_methods(ip, o, r, name, args, kw, fr, st, node):
    w = ip.where(node, fr)
    if L.is_counter(r) and name in ("most_common", "elements", "update", "subtract", "total", "get", "fromkeys"):
        if name == "total" and r.items is not None:
            acc = Const(0)
            for _, x in r.items:
                acc = add(acc, x)
            return acc
        if name in ("most_common", "elements") and r.items is not None and all(isinstance(x, Const) for _, x in r.items):
            if name == "elements":
                return mklist(st, [k for k, x in r.items for _ in range(max(x.v, 0))], "iter")
            el = sorted(r.items, key=lambda kx: -kx[1].v)
            n = args[0] if args else kw.get("n", NONE)
            if isinstance(n, Const):
                return mklist(st, [Tup(kx) for kx in (el if n.v is None else el[:n.v])])
        if name != "get":
            raise Undecided("Counter." + name)
    if name in ("keys", "values", "items"):
        return MethV(o, "<%s>" % name)
    if name == "get":
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        return L.dict_get(ip, o, args[0], fr, st, node, lambda s: d)
    if name == "setdefault":
        k = L.dict_find(ip, o, args[0], fr, st, node)
        d = args[1] if len(args) > 1 else NONE
        if k is None:
            L.setitem(ip, o, args[0], Opaque("setdefault"), fr, st, node)
            return Opaque("setdefault")
        if k < 0:
            L.setitem(ip, o, args[0], d, fr, st, node)
            return d
        return r.items[k][1]
    if name in ("copy",):
        return st.new(DictRec(r.items, r.sym, owner="fresh", kind=r.kind, default=r.default))
    if name == "clear":
        r2 = r.copy()
        r2.items = ()
        st.write(o, r2, name, w)
        return NONE
    if name == "pop":
        k = L.dict_find(ip, o, args[0], fr, st, node) if args else (0 if r.items else None)
        if k is None:
            r2 = r.copy()
            r2.items, r2.sym = None, Opaque("dict")
            st.write(o, r2, name, w)
            return Opaque("popped")
        if k < 0:
            if len(args) > 1:
                return args[1]
            ip.raise_now("KeyError", fr, st, node)
        r2 = r.copy()
        r2.items = r.items[:k] + r.items[k + 1:]
        st.write(o, r2, name, w)
        return r.items[k][1] if r.kind != "set" else r.items[k][0]
    if name == "popitem":
        raise Undecided("popitem")
    if name == "update":
        if r.kind in ("set", "frozenset"):
            for a in args:
                el = elems(ip, a, fr, st, node)
                if el is None:
                    r2 = r.copy()
                    r2.items, r2.sym = None, Opaque("set")
                    st.write(o, r2, name, w)
                    return NONE
                for x in el:
                    set_add(ip, o, x, fr, st, node, w)
            return NONE
        if args:
            a = args[0]
            ra = st.heap.get(a.id) if isinstance(a, Ref) else None
            if isinstance(ra, DictRec) and ra.items is not None:
                for k, v in ra.items:
                    L.setitem(ip, o, k, v, fr, st, node)
            else:
                el = elems(ip, a, fr, st, node)
                if el is None:
                    r2 = r.copy()
                    r2.items, r2.sym = None, Opaque("dict")
                    st.write(o, r2, name, w)
                else:
                    for p in el:
                        pe = elems(ip, p, fr, st, node)
                        if pe is None or len(pe) != 2:
                            raise Undecided("dict update")
                        L.setitem(ip, o, pe[0], pe[1], fr, st, node)
        for k, v in kw.items():
            L.setitem(ip, o, Const(k), v, fr, st, node)
        return NONE
    if name == "add":
        set_add(ip, o, args[0], fr, st, node, w)
        return NONE
    if name in ("discard", "remove"):
        k = L.dict_find(ip, o, args[0], fr, st, node)
        r2 = r.copy()
        if k is None:
            r2.items, r2.sym = None, Opaque("set")
        elif k < 0:
            if name == "remove":
                ip.raise_now("KeyError", fr, st, node)
            return NONE
        else:
            r2.items = r.items[:k] + r.items[k + 1:]
        st.write(o, r2, name, w)
        return NONE
    op = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}.get(name)
    if op:
        acc = o
        for a in args:
            b = a if isinstance(a, Ref) and isinstance(st.rec(a), DictRec) else _mkset(ip, [a], fr, st, node, "set")
            acc = L.set_op(ip, op, acc, b, fr, st, node)
        if not args:
            return st.new(DictRec(r.items, r.sym, owner="fresh", kind=r.kind))
        return acc
    if name in ("issubset", "issuperset", "isdisjoint"):
        b = args[0] if isinstance(args[0], Ref) and isinstance(st.rec(args[0]), DictRec) else _mkset(ip, [args[0]], fr, st, node, "set")
        rb = st.rec(b)
        if r.items is None or rb.items is None:
            return Opaque(name, "bool") if False else App(name, (L.freeze(ip, o, st), L.freeze(ip, b, st)), "bool")
        res = TRUE
        src, dst = (r, b) if name != "issuperset" else (rb, o)
        for k, _ in src.items:
            c = truthv(ip, L.contains(ip, dst, k, fr, st, node), fr, st, node)
            res = b_and(res, b_not(c) if name == "isdisjoint" else c)
        return res
    if name == "__getitem__":
        return L.getitem(ip, o, args[0], fr, st, node)
    if name == "__contains__":
        return L.contains(ip, o, args[0], fr, st, node)
    if name == "__len__":
        return b__len(ip, [o], {}, fr, st, node)
    if name == "move_to_end" and r.items is not None:
        k = L.dict_find(ip, o, args[0], fr, st, node)
        if k is not None and k >= 0:
            r2 = r.copy()
            r2.items = r.items[:k] + r.items[k + 1:] + (r.items[k],)
            st.write(o, r2, name, w)
            return NONE
    if name == "fromkeys":
        raise Undecided("fromkeys")
    raise Undecided("dict method " + name)


def set_add(ip, o, x, fr, st, node, w):
    r = st.rec(o)
    k = L.dict_find(ip, o, x, fr, st, node)
    r2 = r.copy()
    if k is None:
        r2.items, r2.sym = None, Opaque("set")
    elif k < 0:
        r2.items = r.items + ((x, TRUE),)
    else:
        return
    st.write(o, r2, "add", w)


def arr_methods(ip, o, r, name, args, kw, fr, st, node):
    w = ip.where(node, fr)
    npf = lambda n, *a, **k: call_ext(ip, "numpy." + n, list(a), k, fr, st, node)
    if name in ("copy", "__copy__", "__deepcopy__"):
        return arr_copy(ip, o, fr, st)
    if name in ("conj", "conjugate"):
        return npf("conj", o)
    if name == "dot":
        return L.matmul(ip, o, args[0], fr, st, node)
    if name in ("transpose",):
        return arr_T(ip, o, st) if not args else npf("transpose", o, *args)
    if name in ("getH",):
        return npf("conj", arr_T(ip, o, st))
    if name in ("tolist",):
        g = L.arr_get(ip, st, o)
        if g is None:
            e = L.arr_expr(ip, st, o)
            return st.new(ListRec(None, Opaque("tolist") if isinstance(e, Opaque) else App("tolist", (e,), "seq"), owner="fresh"))
        return _nested(st, g[0], list(g[1]))
    if name in ("astype", "tocsr", "tocsc", "tocoo", "todense", "toarray", "tobsr", "asformat", "tolil", "todok"):
        if kw.get("copy") == FALSE:
            return o
        v = arr_copy(ip, o, fr, st)
        x = st.rec(v).copy()
        if name == "astype" and args:
            x.dtype = None
            st.heap[v.id] = x
            return L.typed(ip, v, args[0], fr, st, node)
        elif name in ("todense", "toarray"):
            x.kind = "ndarray"
        st.heap[v.id] = x
        return v
    if name in ("reshape",):
        return npf("reshape", o, args[0] if len(args) == 1 else Tup(args))
    if name in ("flatten", "ravel"):
        g = L.arr_get(ip, st, o)
        if g is None:
            return L.new_arr(st, expr=_app(name, (L.arr_expr(ip, st, o),)), base=o.id if name == "ravel" else None)
        if name == "ravel":
            base, sel = _flatview(st, o)
            return st.new(ArrRec(shape=(len(g[1]),), base=base, sel=sel, owner="view"))
        return L.new_arr(st, (len(g[1]),), g[1])
    if name in ("sum", "prod", "min", "max", "any", "all", "trace", "mean", "cumsum", "nonzero", "argmin", "argmax", "round", "diagonal",
                "argsort", "searchsorted", "repeat", "squeeze", "std", "var"):
        return npf({"round": "around"}.get(name, name), o, *args, **kw)
    if name in ("eliminate_zeros", "sort_indices", "sum_duplicates", "prune") and r.kind == "sparse":
        st.write(o, r.copy(), "sparse-normalise", w)      # the represented matrix does not change
        return NONE
    if name in ("fill", "sort", "resize", "put", "partition", "itemset", "setfield", "byteswap", "sort_indices", "eliminate_zeros", "setdiag"):
        r2 = r.copy()
        if name == "fill" and r.elems is not None:
            r2.elems = tuple(L.cast_elem(ip, args[0], L.arr_kind(st, o), fr, st, node, True) for _ in r.elems)
            st.write(o, r2, "array-write", w)
        elif name == "sort" and r.elems is not None and r.base is None:
            out = do_sort(ip, list(r.elems), None, None, fr, st, node) if len(r.shape) == 1 else None
            if out is not None:
                r2.elems = tuple(out)
            else:
                r2.elems, r2.expr, r2.shape = None, Opaque("sorted", "ndarray"), None
            st.write(o, r2, "array-write", w)
        elif name == "fill":
            L.setitem(ip, o, SliceV(NONE, NONE, NONE), args[0], fr, st, node)
        else:
            rid = L.root_id(st, o.id)
            rr = st.heap[rid].copy()
            rr.elems, rr.expr, rr.shape = None, Opaque(name, "ndarray"), None
            st.write(Ref(rid), rr, "array-write", w)
        return NONE
    if name == "item":
        g = L.arr_get(ip, st, o)
        if g is not None and len(g[1]) == 1:
            return g[1][0]
        if g is not None and args and all(isinstance(x, Const) and isinstance(x.v, int) for x in args):
            if len(args) == 1 and -len(g[1]) <= args[0].v < len(g[1]):
                return g[1][args[0].v]
            if len(args) == len(g[0]) > 1:
                return L.getitem(ip, o, Tup(args), fr, st, node)
        return Opaque("item", "num")
    if name == "setflags":
        if kw.get("write") == FALSE:
            r2 = r.copy()
            r2.owner = "readonly"
            st.heap[o.id] = r2
        return NONE
    if name in ("view",):
        return st.new(ArrRec(shape=r.shape, expr=L.arr_expr(ip, st, o), base=o.id, owner="view"))
    if name == "__len__":
        return b__len(ip, [o], {}, fr, st, node)
    if name == "tobytes":
        return App("tobytes", (L.arr_expr(ip, st, o),), "bytes")
    if name == "multiply":
        return L.arr_binop(ip, "Mult", o, args[0], fr, st, node)
    from . import nd
    v = nd.try_np(ip, name, [o] + list(args), kw, fr, st, node) if r.kind != "csr" else None
    return v if v is not None else Opaque("array method " + name)


def _flatview(st, o):
    r = st.rec(o)
    if r.base is not None:
        return r.base, r.sel
    n = len(r.elems)
    return o.id, tuple(range(n))


def _nested(st, shape, el):
    if shape == ():
        return el[0]
    if len(shape) == 1:
        return mklist(st, el)
    k = len(el) // shape[0] if shape[0] else 0
    return mklist(st, [_nested(st, shape[1:], el[i * k:(i + 1) * k]) for i in range(shape[0])])


def arr_copy(ip, o, fr, st):
    g = L.arr_get(ip, st, o)
    if isinstance(o, Ref):
        r = st.rec(o)
        k = r.kind if isinstance(r, ArrRec) else "ndarray"
    else:
        k = "ndarray"
    if g is not None:
        rr = st.heap.get(L.root_id(st, o.id)) if isinstance(o, Ref) else None
        return L.new_arr(st, g[0], g[1], kind=k, dtype=rr.dtype if isinstance(rr, ArrRec) else None)
    e = L.arr_expr(ip, st, o)
    r = st.rec(o) if isinstance(o, Ref) else None
    return L.new_arr(st, shape=None, expr=e if tyof(e) == "ndarray" or isinstance(e, Opaque) else App("array", (e,), "ndarray"), kind=k)


def arr_T(ip, o, st):
    g = L.arr_get(ip, st, o)
    r = st.heap.get(o.id) if isinstance(o, Ref) else None
    if g is not None:
        sh, el = g
        if len(sh) == 1:
            return o
        if len(sh) == 2:
            n, m = sh
            sel = [i * m + j for j in range(m) for i in range(n)]
            if isinstance(r, ArrRec):
                base, bsel = _flatview(st, o)
                return st.new(ArrRec(shape=(m, n), base=base, sel=tuple(bsel[k] for k in sel), owner="view", kind=r.kind))
            return L.new_arr(st, (m, n), [el[k] for k in sel])
    e = L.arr_expr(ip, st, o)
    if isinstance(e, Opaque):
        return st.new(ArrRec(expr=Opaque("T", "ndarray"), base=o.id if isinstance(o, Ref) else None, owner="view"))
    t = e.args[0] if isinstance(e, App) and e.op == "T" else App("T", (e,), "ndarray")
    return st.new(ArrRec(expr=t, base=o.id if isinstance(o, Ref) else None, owner="view", kind=r.kind if isinstance(r, ArrRec) else "ndarray"))


DUNDER = {"__add__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__truediv__": "Div", "__floordiv__": "FloorDiv", "__mod__": "Mod", "__pow__": "Pow", "__matmul__": "MatMult",
          "__and__": "BitAnd", "__or__": "BitOr", "__xor__": "BitXor", "__lshift__": "LShift", "__rshift__": "RShift"}


def dunder(ip, o, name, args, kw, fr, st, node):
    """the special methods of the built-in containers, arrays and numbers called by name; None when they are not these"""
    r = st.heap.get(o.id) if isinstance(o, Ref) else None
    if isinstance(r, ObjRec) or kw or not (name.startswith("__") and name.endswith("__")):
        return None
    num = is_num(o) and not isinstance(o, Opaque)
    if not (isinstance(r, (ListRec, DictRec, ArrRec)) or num or isinstance(o, Tup) or isinstance(o, Const) and isinstance(o.v, str)):
        return None
    if name == "__setitem__" and len(args) == 2 and r is not None:
        L.setitem(ip, o, args[0], args[1], fr, st, node)
        return NONE
    if name == "__delitem__" and len(args) == 1 and r is not None:
        L.delitem(ip, o, args[0], fr, st, node)
        return NONE
    if name == "__getitem__" and len(args) == 1 and not num:
        return L.getitem(ip, o, args[0], fr, st, node)
    if name == "__contains__" and len(args) == 1 and not num:
        return L.contains(ip, o, args[0], fr, st, node)
    if name == "__len__" and not args and not num:
        return call_builtin(ip, BltV("len"), [o], {}, fr, st, node)
    if name == "__bool__" and not args and (num or isinstance(r, ArrRec)):
        return L.truth(ip, o, fr, st, node)
    if len(args) == 1:
        b = args[0]
        rb = st.heap.get(b.id) if isinstance(b, Ref) else None
        alike = num and is_num(b) and not isinstance(b, Opaque) and tyof(o) == tyof(b) or isinstance(r, ArrRec) and (is_num(b) or isinstance(rb, ArrRec)) or \
            isinstance(o, Tup) and isinstance(b, Tup) or isinstance(r, (ListRec, DictRec)) and type(r) is type(rb) and r.kind == rb.kind or \
            isinstance(o, Const) and isinstance(o.v, str) and isinstance(b, Const) and isinstance(b.v, str)
        scaled = name == "__mul__" and (isinstance(o, Tup) or isinstance(r, ListRec)) and isinstance(b, Const) and isinstance(b.v, int)
        if name in DUNDER and (alike or scaled):
            return L.binop(ip, DUNDER[name], o, b, fr, st, node)
        if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__") and alike:
            return L.rich_compare(ip, name.strip("_"), o, b, fr, st, node)
        if name.startswith("__r") and "__" + name[3:] in DUNDER and alike and not isinstance(o, Tup) and r is None or name.startswith("__r") and "__" + name[3:] in DUNDER and isinstance(r, ArrRec) and alike:
            return L.binop(ip, DUNDER["__" + name[3:]], b, o, fr, st, node)
        if name.startswith("__i") and "__" + name[3:] in DUNDER and isinstance(r, (ArrRec, ListRec, DictRec)) and alike:
            return ip.inplace(DUNDER["__" + name[3:]], o, b, fr, st, node)
    return None


def call_method(ip, o, name, args, kw, fr, st, node):
    v = dunder(ip, o, name, args, kw, fr, st, node)
    if v is not None:
        return v
    if isinstance(o, Ref):
        r = st.heap.get(o.id)
        if isinstance(r, ListRec):
            return seq_methods(ip, o, r, name, args, kw, fr, st, node)
        if isinstance(r, DictRec):
            return dict_methods(ip, o, r, name, args, kw, fr, st, node)
        if isinstance(r, ArrRec):
            return arr_methods(ip, o, r, name, args, kw, fr, st, node)
        if isinstance(r, ObjRec):
            if name == "__eq__":
                return ip.fork(L.identity_eq(ip, o, args[0], st), lambda s: TRUE, lambda s: NOTIMPL, st)
            if name == "__hash__":
                return App("hash", (o,), "int")
            if name == "__init__":
                return NONE
            if name == "__setattr__" or name == "__delattr__":
                r2 = r.copy()
                r2.fields[args[0].v] = args[1]
                st.write(o, r2, "field:" + args[0].v, ip.where(node, fr))
                return NONE
            if name in ("__str__", "__repr__"):
                return App("objrepr", (o,), "str")
            if name == "__ne__":
                return b_not(truthv(ip, L.rich_compare(ip, "eq", o, args[0], fr, st, node), fr, st, node))
            log_call(ip, "." + name, [o] + args, kw, fr, st, node)
            return Opaque("inherited method " + name)
    if isinstance(o, Tup):
        if name in ("index", "count"):
            return seq_find(ip, o, o.items, name, args, fr, st, node, "")
        if name == "__len__":
            return Const(len(o.items))
        if name == "__contains__":
            return L.contains(ip, o, args[0], fr, st, node)
        if name == "__getitem__":
            return L.getitem(ip, o, args[0], fr, st, node)
        raise Undecided("tuple method " + name)
    if isinstance(o, Const) and isinstance(o.v, str) or tyof(o) == "str":
        return L.str_method(ip, o, name, args, kw, fr, st, node)
    if isinstance(o, BltV) and o.name == "str":
        return L.str_method(ip, args[0], name, args[1:], kw, fr, st, node)
    if isinstance(o, BltV) and o.name == "dict" and name == "fromkeys":
        el = elems(ip, args[0], fr, st, node)
        if el is None:
            return st.new(DictRec(None, Opaque("fromkeys"), owner="fresh"))
        d = L.make_set(ip, el, fr, st, node, "dict")
        r = st.rec(d).copy()
        if r.items is not None:
            r.items = tuple((k, args[1] if len(args) > 1 else NONE) for k, _ in r.items)
        st.heap[d.id] = r
        return d
    if isinstance(o, BltV) and o.name in ("int", "float", "bytes") and name in ("from_bytes", "fromhex"):
        if all(isinstance(x, Const) for x in list(args) + list(kw.values())):
            try:
                return Const(getattr(getattr(builtins, o.name), name)(*[x.v for x in args], **{k: x.v for k, x in kw.items()}))
            except (ValueError, TypeError) as e:
                ip.raise_now(type(e).__name__, fr, st, node)
        raise Undecided("%s.%s" % (o.name, name))
    if isinstance(o, BltV) and o.name == "str" and name == "maketrans":
        raise Undecided("str.maketrans")
    if isinstance(o, BltV) and args:
        if o.name == "object":
            return call_method(ip, args[0], name, args[1:], kw, fr, st, node)
        return ip.call(ip.getattr(args[0], name, fr, st, node), args[1:], kw, fr, st, node)
    if isinstance(o, BitsV) and name == "bit_count":
        acc = Const(0)
        for b in o.bits:
            acc = add(acc, as01(b))
        return acc
    if is_num(o) and not isinstance(o, Opaque) or tyof(o) in NUMT:
        if name in ("conjugate", "conj"):
            return Opaque("conj", tyof(o)) if isinstance(o, Opaque) else conj(o)
        if name == "bit_count":
            return Const(bin(o.v).count("1")) if isinstance(o, Const) else App("popcount", (o,), "int")
        if name == "bit_length" and isinstance(o, Const):
            return Const(o.v.bit_length())
        if name == "is_integer" and isinstance(o, Const):
            return Const(float(o.v).is_integer())
        if name in ("item",):
            return o
        if name == "__hash__":
            return hashv(ip, o, fr, st, node)
        if name == "astype":
            return o
        return Opaque("number method " + name, "num")
    if isinstance(o, MethV) and o.name in ("<keys>", "<values>", "<items>"):
        if name in ("isdisjoint",) and o.name == "<keys>":
            return dict_methods(ip, o.self_, st.rec(o.self_), name, args, kw, fr, st, node)
    if isinstance(o, App) and o.op == "path":
        return path_method(ip, o, name, args, kw, fr, st, node)
    if isinstance(o, App) and o.op == "range" and name in ("index", "count"):
        el = elems(ip, o, fr, st, node)
        if el is not None:
            return seq_find(ip, o, el, name, args, fr, st, node, "")
    if isinstance(o, App) and o.op == "file":
        st.effects = st.effects + (("file", (o, name, tuple(L.freeze(ip, a, st) for a in args)), ip.where(node, fr)),)
        if name == "__enter__":
            return o
        return NONE if name in ("close", "flush", "__exit__") else Opaque("file." + name)
    if isinstance(o, App) and o.op == "kdtree":
        from . import lib3
        r = lib3.kdtree_method(ip, o, name, args, kw, fr, st, node)
        if r is not None:
            return r
        fa = tuple(L.freeze(ip, x, st) for x in args) + lib3.kwpairs(ip, kw, st, L)
        log_call(ip, "kdtree." + name, args, kw, fr, st, node)
        mk = lambda i: L.new_arr(st, expr=Opaque("kdtree", "ndarray") if any(has_opaque(x) for x in fa) else App("kdtree." + name, (o, Const(i)) + fa, "ndarray"))
        if name == "query":
            return Tup((mk(0), mk(1)))
        return Opaque("kdtree." + name)
    if isinstance(o, App) and o.op == "type":
        return Opaque("type method")
    if isinstance(o, ExtV):
        return call_ext(ip, o.name + "." + name, args, kw, fr, st, node)
    fo = L.freeze(ip, o, st)
    log_call(ip, "." + name, [o] + args, kw, fr, st, node)
    if isinstance(fo, (Sym, App)) and not kw:
        fa = tuple(L.freeze(ip, a, st) for a in args)
        if not any(has_opaque(a) for a in fa) and not has_opaque(fo):
            return App("meth:" + name, (fo,) + fa, "any")
    return Opaque("method " + name)


def path_method(ip, o, name, args, kw, fr, st, node):
    if name in ("joinpath", "__truediv__"):
        return App("path", o.args + tuple(x for a in args for x in L.flat_path(ip, a, st)), "path")
    log_call(ip, "path." + name, [o] + args, kw, fr, st, node)
    if name in ("exists", "is_dir", "is_file"):
        return Sym("path%s%d" % (name, next(L.st_ids())), "bool")
    if name in ("mkdir", "unlink", "touch", "write_text"):
        return NONE
    if name in ("resolve", "absolute", "expanduser"):
        return o
    if name == "as_posix":
        return App("str", (o, Const("")), "str")
    if name == "open":
        return b__open(ip, [o] + args, kw, fr, st, node)
    r = App("pathmeth:" + name, (o,) + tuple(L.freeze(ip, a, st) for a in args) + tuple(L.freeze(ip, a, st) for k, a in sorted(kw.items())), "path")
    return App("path", (r,), "path") if name in ("with_suffix", "with_name", "with_stem", "relative_to") else r


# ============================================================================ attributes of builtin values
EXT_CONST = {"numpy.pi": Const(math.pi), "math.pi": Const(math.pi), "numpy.newaxis": NONE, "numpy.e": Const(math.e), "math.e": Const(math.e),
             "numpy.inf": Const(math.inf), "math.inf": Const(math.inf), "math.tau": Const(2 * math.pi), "math.nan": Const(math.nan), "numpy.nan": Const(math.nan),
             "numpy.Inf": Const(math.inf), "numpy.Infinity": Const(math.inf), "numpy.infty": Const(math.inf), "numpy.PINF": Const(math.inf), "numpy.NINF": Const(-math.inf),
             "numpy.NaN": Const(math.nan), "numpy.NAN": Const(math.nan), "cmath.pi": Const(math.pi), "cmath.e": Const(math.e), "cmath.tau": Const(2 * math.pi),
             "scipy.constants.pi": Const(math.pi), "numpy.euler_gamma": Const(0.5772156649015329)}

NP_MISSING = {"float", "int", "complex", "bool", "object", "str", "long", "unicode", "typeDict", "asscalar", "float128x", "product_"}


def getattr_builtin(ip, o, name, fr, st, node, default=None):
    if isinstance(o, ExtV):
        full = o.name + "." + name
        d = st.locals.get("ext:" + o.name)
        if d is not None and name in d:
            return d[name]
        if full in EXT_CONST:
            return EXT_CONST[full]
        if o.name == "numpy" and name in NP_MISSING:
            ip.raise_now("AttributeError", fr, st, node, (Const(name),))
        if o.name == "sys" and name in ("stdout", "stderr"):
            return Sym("sys.%s@entry" % name, "file")
        if o.name == "math" and not hasattr(math, name):
            ip.raise_now("AttributeError", fr, st, node, (Const(name),))
        if o.name == "itertools" and not hasattr(itertools, name):
            ip.raise_now("AttributeError", fr, st, node, (Const(name),))
        return ExtV(full)
    if isinstance(o, WrapV):
        if o.kind == "property":
            if name in ("setter", "getter", "deleter"):
                return MethV(o, name)
            if name == "fget":
                return o.f
        if o.kind == "cache" and name in ("cache_clear", "cache_info", "__wrapped__"):
            return o.f if name == "__wrapped__" else HookV("cache_clear", lambda *a: NONE)
        return ip.getattr(o.f, name, fr, st, node)
    if isinstance(o, Ref):
        r = st.rec(o)
        if isinstance(r, ArrRec):
            return arr_attr(ip, o, r, name, fr, st, node)
        if isinstance(r, ListRec):
            if r.kind == "list" and not hasattr(list, name) or r.kind == "deque" and not hasattr(collections.deque, name) or r.kind == "iter" and name in ("append", "sort", "extend"):
                return missing_attr(ip, name, fr, st, node, default)
            return MethV(o, name)
        if isinstance(r, DictRec):
            ty = {"set": set, "frozenset": frozenset, "OrderedDict": collections.OrderedDict, "defaultdict": collections.defaultdict}.get(r.kind, dict)
            if L.is_counter(r):
                ty = collections.Counter
            if name == "default_factory" and r.kind == "defaultdict":
                return r.default
            if not hasattr(ty, name):
                return missing_attr(ip, name, fr, st, node, default)
            return MethV(o, name)
    if isinstance(o, Tup):
        if not hasattr(tuple, name):
            return missing_attr(ip, name, fr, st, node, default)
        return MethV(o, name)
    if isinstance(o, Const):
        v = o.v
        if isinstance(v, (int, float, complex)) and not isinstance(v, bool) and name in ("real", "imag"):
            return Const(getattr(v, name))
        if not hasattr(v, name):
            return missing_attr(ip, name, fr, st, node, default)
        if name == "__class__":
            return BltV(type(v).__name__)
        if name == "__doc__":
            return Const("")
        return MethV(o, name)
    if isinstance(o, (FuncV, BoundV)):
        f = o.func if isinstance(o, BoundV) else o
        if name in ("__name__", "__qualname__"):
            return Const(getattr(f, "name", "function"))
        if name == "__doc__":
            return Const("")
        if name == "__self__" and isinstance(o, BoundV):
            return o.self_
        if name == "__func__" and isinstance(o, BoundV):
            return o.func
        if name in ("__module__", "__dict__", "__wrapped__", "py_func"):
            return f if name == "py_func" else Opaque(name)
        return missing_attr(ip, name, fr, st, node, default)
    if isinstance(o, HookV):
        return Opaque("attribute of " + o.name)
    if isinstance(o, BltV):
        if name in ("__name__", "__qualname__"):
            return Const(o.name)
        if name == "__doc__":
            return Const("")
        return MethV(o, name)
    if isinstance(o, App) and o.op == "enum":
        if name == "name":
            return o.args[1]
        if name == "value":
            return o.args[2]
        if name == "__class__":
            return App("type", (o.args[0],), "type")
        return missing_attr(ip, name, fr, st, node, default)
    if isinstance(o, App) and o.op == "type":
        if name == "__name__":
            return App("typename", o.args, "str")
        return Opaque("type attribute")
    if isinstance(o, ExtV) and name == "__name__":
        return Const(o.name.split(".")[-1])
    if isinstance(o, MethV):
        if o.name == "nonzero":
            return Opaque("attr")
        return MethV(o, name)
    if isinstance(o, BitsV) or is_num(o) and tyof(o) != "ndarray":
        if isinstance(o, Opaque):
            return Opaque(name, "num")
        t = tyof(o)
        if name in ("real", "imag") and isinstance(o, Poly) and t in ("complex", "num") and conj(o) == o:
            # equal to its own conjugate: a real number
            return mk_poly({m: (k.real if isinstance(k, complex) else k) for m, k in o.terms}, "float") if name == "real" else Const(0.0)
        if name == "real":
            return o if t in ("int", "float", "bool") else App("real", (o,), "float")
        if name == "imag":
            return Const(0) if t in ("int", "float", "bool") else App("imag", (o,), "float")
        if name in ("conjugate", "conj", "item", "bit_count", "bit_length", "is_integer", "astype", "__hash__", "dtype", "shape", "tolist", "__class__"):
            return MethV(o, name) if name != "shape" else Tup(())
        if t in ("int", "float", "complex", "bool", "num"):
            return missing_attr(ip, name, fr, st, node, default)
        return MethV(o, name)
    if tyof(o) == "foreign":
        return missing_attr(ip, name, fr, st, node, default)
    if tyof(o) == "ndarray":
        if name == "T":
            return App("T", (o,), "ndarray")
        if name == "shape":
            return App("shape", (o,), "tuple")
        if name in ("ndim", "size"):
            return App(name, (o,), "int")
        if name in ("real", "imag"):
            return App(name, (o,), "ndarray")
        r = L.new_arr(st, expr=o)
        return MethV(r, name)
    if isinstance(o, Opaque):
        return MethV(o, name)
    if isinstance(o, App) and o.op == "path":
        if name in ("parent", "name", "stem", "suffix"):
            a = App("pathattr:" + name, (o,), "path" if name == "parent" else "str")
            return App("path", (a,), "path") if name == "parent" else a
        return MethV(o, name)
    if isinstance(o, App) and o.op == "file":
        return MethV(o, name)
    if isinstance(o, App) and o.op == "kdtree":
        if name == "n":
            return o.args[0].items[0]
        if name == "m":
            return o.args[0].items[1]
        if name == "data" and isinstance(o.args[1], Tup) and all(isinstance(x, Const) for x in o.args[0].items):
            return L.new_arr(st, tuple(x.v for x in o.args[0].items), list(o.args[1].items))
        return MethV(o, name)
    if isinstance(o, App) and o.op == "typeinfo":
        v = type_limit(o, name)
        return missing_attr(ip, name, fr, st, node, default) if v is None else v
    if isinstance(o, (Sym, App)):
        if o.ty == "str":
            return MethV(o, name)
        if o.ty == "file" or isinstance(o, App) and o.op in ("decorator", "logger"):
            return MethV(o, name)
        return App("attr", (o, Const(name)), "any")
    from .interp import ExcVal
    if isinstance(o, ExcVal):
        if name == "args":
            return Tup(o.args)
        if name == "__class__":
            return o.cls
        return MethV(o, name)
    raise Undecided("attribute %s of %s" % (name, show(o)))


FINFO = {"float64": (2.220446049250313e-16, 1.7976931348623157e308, 2.2250738585072014e-308, 64, 15),
         "float32": (1.1920928955078125e-07, 3.4028234663852886e38, 1.1754943508222875e-38, 32, 6)}


def type_limit(o, name):
    kind, t = o.args[0].v, o.args[1].v
    if kind == "finfo":
        eps, mx, tiny, bits, prec = FINFO[t]
        return {"eps": Const(eps), "max": Const(mx), "min": Const(-mx), "tiny": Const(tiny), "smallest_normal": Const(tiny), "bits": Const(bits),
                "precision": Const(prec), "resolution": Const(10.0 ** -prec)}.get(name)
    n = int("".join(x for x in t if x.isdigit()))
    lo, hi = (0, 2 ** n - 1) if t[0] == "u" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
    return {"min": Const(lo), "max": Const(hi), "bits": Const(n)}.get(name)


def missing_attr(ip, name, fr, st, node, default):
    if default is not None:
        return default
    ip.raise_now("AttributeError", fr, st, node, (Const(name),))


def arr_attr(ip, o, r, name, fr, st, node):
    g = L.arr_get(ip, st, o)
    e = None
    if name == "shape":
        if g is not None:
            return Tup(Const(d) for d in g[0])
        if r.shape is not None:
            return Tup(Const(d) for d in r.shape)
        e = L.arr_expr(ip, st, o)
        return Opaque("shape", "tuple") if isinstance(e, Opaque) else shape_of(e)
    if name == "ndim":
        if g is not None:
            return Const(len(g[0]))
        if r.shape is not None:
            return Const(len(r.shape))
        e = L.arr_expr(ip, st, o)
        return Opaque("ndim", "int") if isinstance(e, Opaque) else App("ndim", (e,), "int")
    if name == "size":
        if g is not None:
            return Const(len(g[1]))
        e = L.arr_expr(ip, st, o)
        return Opaque("size", "int") if isinstance(e, Opaque) else App("size", (e,), "int")
    if name == "T":
        return arr_T(ip, o, st)
    if name == "H":
        return call_ext(ip, "numpy.conj", [arr_T(ip, o, st)], {}, fr, st, node)
    if name == "dtype":
        rr = st.heap.get(L.root_id(st, o.id)) if isinstance(o, Ref) else r
        return rr.dtype if getattr(rr, "dtype", None) is not None and not isinstance(rr.dtype, App) else Opaque("dtype")
    if name in ("real", "imag"):
        if g is not None:
            el = [ip.getattr(x, name, fr, st, node) for x in g[1]]
            return L.new_arr(st, g[0], el)
        e = L.arr_expr(ip, st, o)
        return st.new(ArrRec(expr=_app(name, (e,)), base=o.id, owner="view"))
    if name in ("flat",):
        if g is not None:
            return mklist(st, g[1], "iter")
        return Opaque("flat")
    if name == "nnz":
        return Opaque("nnz", "int")
    if name in ("data", "indices", "indptr", "row", "col", "flags", "base"):
        return Opaque("array." + name)
    return MethV(o, name)


def shape_of(e):
    if isinstance(e, App):
        if e.op == "zeros" and e.args:
            return e.args[0] if isinstance(e.args[0], Tup) else Tup((e.args[0],))
        if e.op == "identity" and e.args:
            return Tup((e.args[0], e.args[0]))
        if e.op == "setitem":
            return shape_of(e.args[0])
    return App("shape", (e,), "tuple")


def _app(name, args, ty="ndarray"):
    if any(has_opaque(a) for a in args):
        return Opaque(name, ty)
    return App(name, args, ty)


from .lib3 import *      # noqa: E402,F401,F403
from . import lib3 as _l3
