"""Models of builtins, the standard library, numpy and scipy for the abstract interpreter."""
import ast
import builtins
import importlib.util
import itertools
from operator import is_ as _is
import math
import re
import string

from .interp import OPMETH, UnknownFilter
from .state import *
from .vals import *

KNOWN_EXT = {"numpy", "scipy", "matplotlib", "numba", "mkl", "mpl_toolkits", "collections", "itertools", "functools",
             "operator", "math", "enum", "logging", "time", "sys", "os", "pathlib", "traceback", "copy", "warnings", "abc",
             "contextlib", "typing", "numbers", "types", "cmath", "random", "string", "re", "json", "fractions", "bisect", "builtins",
             "__future__", "dataclasses", "decimal", "inspect", "heapq", "weakref", "threading", "datetime", "platform", "io", "textwrap",
             "shutil", "tempfile", "subprocess", "pickle", "argparse", "statistics", "struct", "array", "unittest", "pytest", "mkl_fft"}


def external_module_exists(root):
    if root in KNOWN_EXT:
        return True
    import sys
    if root in sys.stdlib_module_names:
        return True
    return False


def builtin(n):
    v = {"True": TRUE, "False": FALSE, "None": NONE, "NotImplemented": NOTIMPL, "Ellipsis": ELLIPSIS}.get(n)
    if v is not None:
        return v
    if n == "__name__":
        return Const("builtins")
    return BltV(n)


# ================================================================= arrays
def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def arr_get(ip, st, v):
    """(shape, elems) of a value with fully known shape, else None; scalars have shape ()"""
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ArrRec):
            if r.base is not None and r.sel is not None:
                b = st.heap[r.base]
                if b.elems is not None:
                    return r.shape, tuple(b.elems[i] for i in r.sel)
                return None
            if r.elems is not None:
                return r.shape, r.elems
            return None
        if isinstance(r, ListRec):
            if r.elems is None:
                return None
            return _nest(ip, st, r.elems)
        return None
    if isinstance(v, Tup):
        return _nest(ip, st, v.items)
    if isinstance(v, App) and v.op == "range":
        return None
    if isinstance(v, (Const, BitsV, Poly)) or is_num(v) or is_bool(v):
        if tyof(v) == "ndarray":
            return None
        if isinstance(v, Const) and not isinstance(v.v, (int, float, complex)):
            return None
        return (), (v,)
    if isinstance(v, Ite):
        return (), (v,)
    return None


def _nest(ip, st, items):
    parts = [arr_get(ip, st, x) for x in items]
    if any(p is None for p in parts):
        return None
    if not parts:
        return (0,), ()
    sh = parts[0][0]
    if any(p[0] != sh for p in parts):
        return None
    return (len(parts),) + sh, tuple(e for p in parts for e in p[1])


def arr_expr(ip, st, v):
    """value-graph term for an array-like"""
    return freeze(ip, v, st)


def new_arr(st, shape=None, elems=None, expr=None, dtype=None, kind="ndarray", owner="fresh", base=None, sel=None):
    return st.new(ArrRec(shape=None if shape is None else tuple(shape), elems=None if elems is None else tuple(elems),
                         expr=expr, dtype=dtype, kind=kind, owner=owner, base=base, sel=sel))


def is_arr(st, v):
    return (isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrRec)) or tyof(v) == "ndarray"


def root_id(st, i):
    seen = set()
    while i in st.heap and isinstance(st.heap[i], ArrRec) and st.heap[i].base is not None and i not in seen:
        seen.add(i)
        i = st.heap[i].base
    return i


DTN = {"float": "f64", "float64": "f64", "float_": "f64", "double": "f64", "d": "f64", "f8": "f64", "f": "f32", "single": "f32", "float32": "f32", "f4": "f32",
       "half": "f16", "float16": "f16", "f2": "f16", "complex": "c128", "complex128": "c128", "complex_": "c128", "cdouble": "c128", "D": "c128", "c16": "c128",
       "complex64": "c64", "csingle": "c64", "F": "c64", "c8": "c64", "bool": "b", "bool_": "b", "?": "b"}


def dtype_kind(d):
    """"int64", "f64", "c128", "b" ... of a data type written in the source; None when it is not known"""
    if isinstance(d, Const) and isinstance(d.v, str):
        n = d.v.lstrip("<>=|")
    elif isinstance(d, (ExtV, BltV)):
        n = d.name.split(".")[-1]
    else:
        return None
    if n in DTN:
        return DTN[n]
    m = re.match(r"([iu])([1248])$", n)
    if m:
        return ("uint" if m.group(1) == "u" else "int") + str(8 * int(m.group(2)))
    if n in ("int", "int_", "intp", "long", "q", "l"):
        return "int64"
    if n in ("uint", "uintp", "ulonglong", "Q", "L"):
        return "uint64"
    return n if re.match(r"u?int(8|16|32|64)$", n) else None


def float_round(x, bits):
    import struct
    f = {32: "f", 16: "e"}[bits]
    try:
        return struct.unpack(f, struct.pack(f, x))[0]
    except OverflowError:
        return math.copysign(float("inf"), x)


def cast_elem(ip, e, k, fr, st, node, strict=False):
    """what an array of kind `k` keeps of the value `e` stored in it; `strict`: refuse what numpy's constructor refuses"""
    if k is None or isinstance(e, (Opaque, Ite, Tup)) or e is None or isinstance(e, Ref) or not (is_num(e) or is_bool(e)):
        return e
    if has_opaque(e) or tyof(e) == "ndarray":
        return e
    if isinstance(e, Const) and not isinstance(e.v, (bool, int, float, complex)):
        return e
    t = tyof(e)
    if "int" in k:
        from . import lib2
        w = lib2.to_int(ip, e, fr, st, node)
        if isinstance(w, Const) and isinstance(w.v, int):
            bits, un = int(k.lstrip("uint")), k.startswith("u")
            lo, hi = (0, 2 ** bits - 1) if un else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
            if not lo <= w.v <= hi:
                if strict and not -2 ** 63 <= w.v < 2 ** 64:
                    ip.raise_now("OverflowError", fr, st, node)
                return Const((w.v - lo) % 2 ** bits + lo)
        return w
    if k == "b":
        return truth(ip, e, fr, st, node)
    if k in ("f64", "f32", "f16"):
        if isinstance(e, Const):
            x = e.v
            if isinstance(x, complex):
                if strict:
                    ip.raise_now("TypeError", fr, st, node)
                x = x.real
            try:
                x = float(x)
            except OverflowError:
                return e
            return Const(x if k == "f64" or x != x or abs(x) == float("inf") else float_round(x, int(k[1:])))
        if t in ("complex", "num"):
            e = ip.getattr(e, "real", fr, st, node)
        elif is_bool(e):
            e = as01(e)
        return e if k == "f64" else narrow(e, k)
    if k == "c128":
        return as01(e) if is_bool(e) and not isinstance(e, Const) else e
    if isinstance(e, Const):
        x = complex(e.v)
        return Const(complex(float_round(x.real, 32), float_round(x.imag, 32)))
    return narrow(as01(e) if is_bool(e) else e, k)


def narrow(e, k):
    if isinstance(e, App) and e.op == k:
        return e
    return App(k, (e,), "float" if k[0] == "f" else "complex")


def arr_kind(st, o):
    """the kind of the elements of the array `o` when the source fixes it"""
    if not isinstance(o, Ref):
        return None
    r = st.heap.get(root_id(st, o.id))
    return dtype_kind(r.dtype) if isinstance(r, ArrRec) and r.dtype is not None else None


def typed(ip, v, d, fr, st, node, strict=False):
    """give the freshly made array `v` the element type `d`"""
    k = dtype_kind(d)
    r = st.heap.get(v.id) if isinstance(v, Ref) else None
    if k is None or not isinstance(r, ArrRec) or r.base is not None or r.kind != "ndarray":
        return v
    r = r.copy()
    r.dtype = d
    if r.elems is not None:
        r.elems = tuple(cast_elem(ip, e, k, fr, st, node, strict) for e in r.elems)
    elif r.expr is not None and not isinstance(r.expr, Opaque) and not (isinstance(r.expr, App) and r.expr.op in ("zeros", "ones", "identity", "empty")) and (k in ("f32", "f16", "c64") or ("int" in k and not strict)):
        r.expr = App("astype", (r.expr, d), "ndarray")
    st.heap[v.id] = r
    return v


def overwrite(ip, old, new, fr, st, node, ufunc=False):
    """in-place replacement of the content of array `old` by the content of `new`"""
    r = st.rec(old)
    g = arr_get(ip, st, new)
    k = arr_kind(st, old)
    if k is not None and g is not None:
        if ufunc:
            ts = [tyof(x) for x in g[1]]
            if "int" in k and any(t in ("float", "complex") for t in ts) or k[0] == "f" and "complex" in ts:
                ip.raise_now("TypeError", fr, st, node)
        g = (g[0], tuple(cast_elem(ip, x, k, fr, st, node) for x in g[1]))
    if r.base is not None:
        b = st.heap[r.base].copy()
        if g is not None and r.sel is not None and b.elems is not None:
            sh, el = broadcast_to(g, r.shape)
            els = list(b.elems)
            for i, e in zip(r.sel, el):
                els[i] = e
            b.elems = tuple(els)
        else:
            b.elems, b.expr = None, Opaque("written through a view", "ndarray")
        st.write(Ref(root_id(st, r.base)), st.heap[root_id(st, r.base)], "array-write", ip.where(node, fr))
        st.heap[r.base] = b
        return
    r2 = r.copy()
    if g is not None and r.shape is not None and r.elems is not None:
        r2.shape, r2.elems = r.shape, broadcast_to(g, r.shape)[1]
    elif g is not None and r.elems is None and r.shape is None:
        r2.elems, r2.expr = None, arr_expr(ip, st, new)
    else:
        r2.elems, r2.expr = None, arr_expr(ip, st, new)
    st.write(old, r2, "array-write", ip.where(node, fr))


def strides(shape):
    s, out = 1, []
    for d in reversed(shape):
        out.append(s)
        s *= d
    return tuple(reversed(out))


def broadcast_to(g, shape):
    sh, el = g
    if sh == shape:
        return shape, el
    n = len(shape)
    sh2 = (1,) * (n - len(sh)) + tuple(sh)
    for a, b in zip(sh2, shape):
        if a != b and a != 1:
            raise Undecided("broadcast %r to %r" % (sh, shape))
    ss = strides(sh2)
    out = []
    for idx in itertools.product(*[range(d) for d in shape]):
        k = sum((0 if a == 1 else i) * s for i, a, s in zip(idx, sh2, ss))
        out.append(el[k])
    return shape, tuple(out)


def broadcast(a, b):
    n = max(len(a[0]), len(b[0]))
    sa = (1,) * (n - len(a[0])) + tuple(a[0])
    sb = (1,) * (n - len(b[0])) + tuple(b[0])
    sh = []
    for x, y in zip(sa, sb):
        if x == y or y == 1:
            sh.append(x)
        elif x == 1:
            sh.append(y)
        else:
            raise ShapeError("broadcast")
    sh = tuple(sh)
    return sh, broadcast_to(a, sh)[1], broadcast_to(b, sh)[1]


def scalar_or_arr(st, shape, elems, dtype=None, kind="ndarray"):
    if shape == ():
        return elems[0]
    return new_arr(st, shape, elems, dtype=dtype, kind=kind)


# ================================================================= freeze
def freeze(ip, v, st, depth=0):
    """structural value independent of the heap"""
    if depth > 12:
        return Opaque("deep")
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ListRec):
            if r.elems is None:
                return r.sym if r.sym is not None else Opaque("list")
            return App("list", tuple(freeze(ip, x, st, depth + 1) for x in r.elems), "list")
        if isinstance(r, DictRec):
            if r.items is None:
                return r.sym if r.sym is not None else Opaque("dict")
            return App(r.kind, tuple(Tup((freeze(ip, k, st, depth + 1), freeze(ip, x, st, depth + 1))) for k, x in r.items), r.kind)
        if isinstance(r, ArrRec):
            g = arr_get(ip, st, v)
            if g is not None:
                return App("arr", (Tup(Const(d) for d in g[0]), Tup(freeze(ip, x, st, depth + 1) for x in g[1])), "ndarray")
            return r.expr if r.expr is not None else Opaque("array", "ndarray")
        if isinstance(r, ObjRec):
            return App("obj:" + r.cls.name, tuple(Tup((Const(k), freeze(ip, x, st, depth + 1))) for k, x in sorted(r.fields.items())), "obj")
        return v
    if isinstance(v, Tup):
        return Tup(freeze(ip, x, st, depth + 1) for x in v.items)
    if isinstance(v, Ite):
        return ite(v.c, freeze(ip, v.a, st, depth + 1), freeze(ip, v.b, st, depth + 1))
    if isinstance(v, BoundV):
        return App("bound", (v.func, freeze(ip, v.self_, st, depth + 1)))
    if isinstance(v, App) and any(isinstance(a, (Ref, Tup)) for a in v.args) and v.op != "super":
        return App(v.op, tuple(freeze(ip, a, st, depth + 1) if isinstance(a, Val) else a for a in v.args), v.ty)
    return v


# ================================================================= truth / equality
def truth(ip, v, fr, st, node):
    if isinstance(v, Const):
        return Const(bool(v.v))
    if is_bool(v):
        return v
    if isinstance(v, Tup):
        return Const(len(v.items) > 0)
    if isinstance(v, BitsV):
        return cmp_num("ne", v, Const(0))
    if isinstance(v, Ref):
        r = st.rec(v)
        if isinstance(r, ListRec):
            if r.kind == "iter":
                return TRUE
            if r.elems is not None:
                return Const(len(r.elems) > 0)
        elif isinstance(r, DictRec):
            if r.items is not None:
                return Const(len(r.items) > 0)
        elif isinstance(r, ObjRec):
            f, _ = r.cls.lookup("__bool__")
            if f is not None:
                return truth(ip, ip.call(BoundV(f, v), [], {}, fr, st, node), fr, st, node)
            f, _ = r.cls.lookup("__len__")
            if f is not None:
                return truth(ip, ip.call(BoundV(f, v), [], {}, fr, st, node), fr, st, node)
            return TRUE
        elif isinstance(r, ArrRec):
            g = arr_get(ip, st, v)
            if g is not None and len(g[1]) == 1:
                return truth(ip, g[1][0], fr, st, node)
            if g is not None:
                ip.raise_now("ValueError", fr, st, node)
        return App("truth", (freeze(ip, v, st),), "bool")
    if isinstance(v, (FuncV, BoundV, ClassV, ModV, ExtV, BltV, MethV, HookV, ExcVal_())):
        return TRUE
    if isinstance(v, Ite):
        return b_or(b_and(v.c, truth(ip, v.a, fr, st, node)), b_and(b_not(v.c), truth(ip, v.b, fr, st, node)))
    if is_num(v) and tyof(v) != "ndarray":
        return cmp_num("ne", v, Const(0))
    if isinstance(v, App) and v.op == "strcat" and any(isinstance(p, Const) and p.v for p in v.args):
        return TRUE
    if isinstance(v, App) and v.op == "enum":
        return TRUE
    return App("truth", (v,), "bool")


def ExcVal_():
    from .interp import ExcVal
    return ExcVal


def identity_eq(ip, a, b, st):
    if a == b and not isinstance(a, Opaque):
        return TRUE
    if isinstance(a, Ite):
        return b_or(b_and(a.c, identity_eq(ip, a.a, b, st)), b_and(b_not(a.c), identity_eq(ip, a.b, b, st)))
    if isinstance(b, Ite):
        return identity_eq(ip, b, a, st)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return Const(a.id == b.id)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref) and (isinstance(y, (Const, Tup, Poly, BitsV, FuncV, ClassV, ModV, BltV)) or
                                   isinstance(y, (Sym, App)) and (y.ty in NUMT or y.ty in ("str", "foreign", "enum"))):
            return FALSE
        if isinstance(x, Const) and (x.v is None or x.v is NotImplemented or isinstance(x.v, bool)):
            if isinstance(y, Const):
                return Const(x.v is y.v)
            if isinstance(y, (Ref, Tup, Poly, FuncV, BoundV, ClassV, ModV, BltV, BitsV, MethV, HookV)) or isinstance(y, ExcVal_()):
                if not (isinstance(x.v, bool) and is_bool(y)):
                    return FALSE
            if isinstance(y, (Sym, App)) and y.ty not in ("any", "unbound") and not (isinstance(x.v, bool) and y.ty == "bool"):
                return FALSE
    if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "enum":
        return Const(a == b)
    if isinstance(a, Const) and isinstance(b, Const):
        return Const(type(a.v) == type(b.v) and a.v == b.v)
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return Const(a.info.qual == b.info.qual)
    if isinstance(a, (ClassV, BltV)) and isinstance(b, (ClassV, BltV)):
        return Const(a == b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Sym("is%d" % next(st_ids()), "bool")
    return App("is", tuple(sorted((a, b), key=lambda x: x.h)), "bool")


def st_ids():
    from . import state
    return state._ids


def str_like(v):
    return (isinstance(v, Const) and isinstance(v.v, str)) or tyof(v) == "str"


def seq_kind(v, r):
    """kind of a built-in container, text or None (which concatenate with their own kind only)"""
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(r, ListRec):
        return "list" if r.kind == "list" else None
    if isinstance(r, DictRec):
        return "set" if r.kind in ("set", "frozenset") else "dict" if r.kind in ("dict", "defaultdict", "OrderedDict") and not is_counter(r) else None
    if isinstance(v, App) and v.op == "range":
        return "range"
    if v == NONE:
        return "none"
    return "str" if str_like(v) else None


def is_counter(r):
    return isinstance(r, DictRec) and r.default == BltV("Counter")


def rich_compare(ip, op, a, b, fr, st, node):
    from .interp import ExcVal
    if isinstance(a, Ite) and not is_num(a):
        return ip.fork(a.c, lambda s: rich_compare(ip, op, a.a, b, fr, s, node), lambda s: rich_compare(ip, op, a.b, b, fr, s, node), st)
    if isinstance(b, Ite) and not is_num(b):
        return ip.fork(b.c, lambda s: rich_compare(ip, op, a, b.a, fr, s, node), lambda s: rich_compare(ip, op, a, b.b, fr, s, node), st)
    ra = st.heap.get(a.id) if isinstance(a, Ref) else None
    rb = st.heap.get(b.id) if isinstance(b, Ref) else None
    if isinstance(ra, ObjRec) or isinstance(rb, ObjRec):
        return obj_compare(ip, op, a, b, ra, rb, fr, st, node)
    if isinstance(a, BoundV) or isinstance(b, BoundV):
        return identity_eq(ip, a, b, st) if op == "eq" else b_not(identity_eq(ip, a, b, st))
    # arrays: elementwise
    if isinstance(ra, ArrRec) or isinstance(rb, ArrRec):
        ga, gb = arr_get(ip, st, a), arr_get(ip, st, b)
        if ga is not None and gb is not None:
            try:
                sh, ea, eb = broadcast(ga, gb)
            except ShapeError:
                ip.raise_now("ValueError", fr, st, node)
            return scalar_or_arr(st, sh, [rich_compare(ip, op, x, y, fr, st, node) for x, y in zip(ea, eb)])
        if isinstance(b, Const) and b.v is None or isinstance(a, Const) and a.v is None:
            return FALSE if op == "eq" else TRUE
        return new_arr(st, expr=App("cmp:" + op, (arr_expr(ip, st, a), arr_expr(ip, st, b)), "ndarray"))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return seq_compare(ip, op, a.items, b.items, fr, st, node)
    if isinstance(ra, ListRec) and isinstance(rb, ListRec) and ra.elems is not None and rb.elems is not None:
        return seq_compare(ip, op, ra.elems, rb.elems, fr, st, node)
    if isinstance(ra, DictRec) and isinstance(rb, DictRec) and ra.items is not None and rb.items is not None and ra.kind in ("set", "frozenset") and rb.kind in ("set", "frozenset"):
        sub_ = TRUE
        for k, _ in ra.items:
            sub_ = b_and(sub_, truth(ip, contains(ip, b, k, fr, st, node), fr, st, node))
        sup = TRUE
        for k, _ in rb.items:
            sup = b_and(sup, truth(ip, contains(ip, a, k, fr, st, node), fr, st, node))
        m = {"eq": b_and(sub_, sup), "ne": b_not(b_and(sub_, sup)), "le": sub_, "ge": sup, "lt": b_and(sub_, b_not(sup)), "gt": b_and(sup, b_not(sub_))}
        return m[op]
    if is_bool(a) and is_bool(b) and not (isinstance(a, Const) and isinstance(b, Const)):
        if op == "eq":
            return b_not(b_xor(a, b))
        if op == "ne":
            return b_xor(a, b)
    if tyof(a) == "ndarray" or tyof(b) == "ndarray":
        return App("cmp:" + op, (freeze(ip, a, st), freeze(ip, b, st)), "ndarray")
    if is_num(a) and is_num(b) and not isinstance(a, Opaque) and not isinstance(b, Opaque):
        if tyof(a) == "foreign" or tyof(b) == "foreign":
            pass
        else:
            return cmp_num(op, a, b)
    if isinstance(a, Const) and isinstance(b, Const):
        x, y = a.v, b.v
        if isinstance(x, (int, float, complex)) != isinstance(y, (int, float, complex)) or type(x) != type(y):
            if op in ("eq", "ne"):
                return Const(op == "ne")
            ip.raise_now("TypeError", fr, st, node)
        try:
            return Const({"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[op]())
        except TypeError:
            ip.raise_now("TypeError", fr, st, node)
    ka, kb = kind(a, st), kind(b, st)
    if ka and kb and ka != kb:
        if op in ("eq", "ne"):
            return Const(op == "ne")
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Sym("cmp%d" % next(st_ids()), "bool")
    fa, fb = freeze(ip, a, st), freeze(ip, b, st)
    if op in ("eq", "ne"):
        if fa == fb:
            return Const(op == "eq")
        r = App("eq", tuple(sorted((fa, fb), key=lambda x: show(x))), "bool")
        return r if op == "eq" else b_not(r)
    if op in ("lt", "ge"):
        r = App("lt", (fa, fb), "bool")
        return r if op == "lt" else b_not(r)
    r = App("lt", (fb, fa), "bool")
    return r if op == "gt" else b_not(r)


def kind(v, st):
    if isinstance(v, Const):
        if isinstance(v.v, (int, float, complex)):
            return "num"
        return type(v.v).__name__
    if isinstance(v, Tup):
        return "tuple"
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        return {ListRec: "list", DictRec: "dict", ArrRec: None, ObjRec: "obj"}.get(type(r))
    t = tyof(v)
    if t in NUMT:
        return "num"
    if t in ("str", "foreign", "enum"):
        return t
    if isinstance(v, (ClassV, BltV, FuncV)):
        return "class"
    return None


def seq_compare(ip, op, xs, ys, fr, st, node):
    if op == "ne":
        return b_not(seq_compare(ip, "eq", xs, ys, fr, st, node))
    if op == "eq":
        if len(xs) != len(ys):
            return FALSE

        def go(i, s):
            if i == len(xs):
                return TRUE
            c = truth(ip, rich_compare(ip, "eq", xs[i], ys[i], fr, s, node), fr, s, node)
            return ip.fork(c, lambda t: go(i + 1, t), lambda t: FALSE, s)
        return go(0, st)

    def lex(i, s):
        if i == len(xs) or i == len(ys):
            d = len(xs) - len(ys)
            return Const({"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[op])
        c = truth(ip, rich_compare(ip, "eq", xs[i], ys[i], fr, s, node), fr, s, node)
        return ip.fork(c, lambda t: lex(i + 1, t), lambda t: rich_compare(ip, op, xs[i], ys[i], fr, t, node), s)
    return lex(0, st)


REFL = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def obj_compare(ip, op, a, b, ra, rb, fr, st, node):
    order = [(a, b, op, ra), (b, a, REFL[op], rb)]
    if isinstance(ra, ObjRec) and isinstance(rb, ObjRec) and ra.cls.qual != rb.cls.qual and rb.cls.subclass_of(ra.cls):
        order.reverse()
    return _cmp_try(ip, op, order, 0, a, b, fr, st, node)


def _cmp_try(ip, op, order, i, a, b, fr, st, node):
    if i == len(order):
        if op == "eq":
            return identity_eq(ip, a, b, st)
        if op == "ne":
            return b_not(identity_eq(ip, a, b, st))
        ip.raise_now("TypeError", fr, st, node)
    x, y, o, r = order[i]
    f = None
    if isinstance(r, ObjRec):
        f, _ = r.cls.lookup("__%s__" % o)
        if f is None and o == "ne":
            g, _ = r.cls.lookup("__eq__")
            if g is not None:
                v = ip.call(BoundV(g, x), [y], {}, fr, st, node)
                return ip.fork(identity_eq(ip, v, NOTIMPL, st), lambda s: _cmp_try(ip, op, order, i + 1, a, b, fr, s, node),
                               lambda s: b_not(truth(ip, v, fr, s, node)), st)
    if f is None:
        return _cmp_try(ip, op, order, i + 1, a, b, fr, st, node)
    v = ip.call(BoundV(f, x), [y], {}, fr, st, node)
    c = identity_eq(ip, v, NOTIMPL, st)
    return ip.fork(c, lambda s: _cmp_try(ip, op, order, i + 1, a, b, fr, s, node), lambda s: _strip(v, s), st)


def _strip(v, st):
    """value of v on paths where it is not NotImplemented"""
    if isinstance(v, Ite):
        if v.a == NOTIMPL:
            return v.b
        if v.b == NOTIMPL:
            return v.a
    return v


def total_ordering(info):
    """functools.total_ordering: derive the missing comparison methods"""
    have = [o for o in ("__lt__", "__le__", "__gt__", "__ge__") if o in info.attrs]
    if not have:
        return
    root = [o for o in ("__lt__", "__le__", "__gt__", "__ge__") if o in have][0]
    conv = {"__lt__": {"__gt__": (True, "and", "ne"), "__le__": (False, "or", "eq"), "__ge__": (True, None, None)},
            "__le__": {"__ge__": (True, "or", "eq"), "__lt__": (False, "and", "ne"), "__gt__": (True, None, None)},
            "__gt__": {"__lt__": (True, "and", "ne"), "__ge__": (False, "or", "eq"), "__le__": (True, None, None)},
            "__ge__": {"__le__": (True, "or", "eq"), "__gt__": (False, "and", "ne"), "__lt__": (True, None, None)}}
    base = info.attrs[root]
    for name, (negate, comb, eq) in conv[root].items():
        if name in info.attrs:
            continue

        def fn(ip, args, kw, fr, st, node, negate=negate, comb=comb, eq=eq):
            v = ip.call(base, args, {}, fr, st, node)
            if v == NOTIMPL:
                return v
            c = truth(ip, v, fr, st, node)
            if negate:
                c = b_not(c)
            if comb:
                e = truth(ip, rich_compare(ip, eq, args[0], args[1], fr, st, node), fr, st, node)
                c = b_and(c, e) if comb == "and" else b_or(c, e)
            return c
        info.attrs[name] = HookV("total_ordering:%s.%s" % (info.qual, name), fn)


def contains(ip, c, x, fr, st, node):
    if isinstance(c, Tup):
        el = c.items
    elif isinstance(c, Const) and isinstance(c.v, str):
        if isinstance(x, Const) and isinstance(x.v, str):
            return Const(x.v in c.v)
        return App("in", (freeze(ip, x, st), c), "bool")
    elif isinstance(c, Ref):
        r = st.rec(c)
        if isinstance(r, ListRec):
            el = r.elems
        elif isinstance(r, DictRec):
            el = None if r.items is None else [k for k, _ in r.items]
        elif isinstance(r, ObjRec):
            f, _ = r.cls.lookup("__contains__")
            if f is not None:
                return truth(ip, ip.call(BoundV(f, c), [x], {}, fr, st, node), fr, st, node)
            el = ip.iter_elems(c, fr, st, node, soft=True)
        else:
            g = arr_get(ip, st, c)
            el = g[1] if g else None
    elif isinstance(c, MethV) and c.name == "<keys>":
        return contains(ip, c.self_, x, fr, st, node)
    else:
        el = ip.iter_elems(c, fr, st, node, soft=True)
    if el is None:
        return App("in", (freeze(ip, x, st), freeze(ip, c, st)), "bool")

    if len(el) > 4:
        try:
            key = pykey(x)
            if isinstance(c, Ref) and isinstance(r, DictRec):
                ix = key_index(c, r.items)
                if ix is not None:
                    return Const(key in ix)
            else:
                return Const(any(pykey(y) == key for y in el))
        except NoKey:
            pass
    if len(el) > 8 and isinstance(x, Val) and tyof(x) == "int" and not isinstance(x, Const) and all(isinstance(y, Const) and isinstance(y.v, int) for y in el):
        vs = sorted({int(y.v) for y in el})
        runs = []
        for v in vs:
            if runs and runs[-1][1] == v - 1:
                runs[-1][1] = v
            else:
                runs.append([v, v])
        if len(runs) <= 4:
            r = FALSE
            for lo, hi in runs:
                r = b_or(r, b_and(st.simp(cmp_num("ge", x, Const(lo))), st.simp(cmp_num("le", x, Const(hi)))))
            return r

    def go(i, s):
        if i == len(el):
            return FALSE
        e = truth(ip, rich_compare(ip, "eq", el[i], x, fr, s, node), fr, s, node) if el[i] != x else TRUE
        d = s.decide(e)
        if d is True:
            return TRUE
        if d is False:
            return go(i + 1, s)
        return b_or(e, go(i + 1, s))
    return go(0, st)


# ================================================================= iteration
def iter_elems(ip, v, fr, st, node):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Const) and isinstance(v.v, str):
        return [Const(ch) for ch in v.v]
    if isinstance(v, Const) and isinstance(v.v, bytes):
        return [Const(ch) for ch in v.v]
    if isinstance(v, Const):
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, App) and v.op == "range":
        if all(isinstance(a, Const) for a in v.args):
            r = range(*[a.v for a in v.args])
            if len(r) > 5000:
                return None
            return [Const(i) for i in r]
        lo, hi, step = v.args
        d = st.decide(cmp_num("lt", lo, hi)) if is_num(lo) and is_num(hi) else None
        if d is False and isinstance(step, Const) and step.v > 0:
            return []
        return None
    if isinstance(v, MethV) and v.name in ("<keys>", "<values>", "<items>"):
        r = st.rec(v.self_)
        if r.items is None:
            return None
        return [k if v.name == "<keys>" else x if v.name == "<values>" else Tup((k, x)) for k, x in r.items]
    if isinstance(v, Ref):
        r = st.rec(v)
        if isinstance(r, ListRec):
            if r.elems is None:
                return None
            if r.kind == "iter":
                el = list(r.elems[r.pos:])
                r2 = r.copy()
                r2.pos = len(r.elems)
                st.heap[v.id] = r2
                return el
            return list(r.elems)
        if isinstance(r, DictRec):
            return None if r.items is None else [k for k, _ in r.items]
        if isinstance(r, ArrRec):
            g = arr_get(ip, st, v)
            if g is None or g[0] == ():
                return None
            n = g[0][0]
            if len(g[0]) == 1:
                return list(g[1])
            return [getitem(ip, v, Const(i), fr, st, node) for i in range(n)]
        if isinstance(r, ObjRec):
            f, _ = r.cls.lookup("__iter__")
            if f is not None:
                return ip.iter_elems(ip.call(BoundV(f, v), [], {}, fr, st, node), fr, st, node, soft=True)
            f, _ = r.cls.lookup("__getitem__")
            if f is None and not r.cls.ext_bases():
                ip.raise_now("TypeError", fr, st, node)
            return None
    if isinstance(v, ClassV) and v.info.enum:
        return [a for a in v.info.attrs.values() if isinstance(a, App) and a.op == "enum"]
    if isinstance(v, (Sym, Poly)) and tyof(v) in NUMT:
        ip.raise_now("TypeError", fr, st, node)
    return None


# ================================================================= operators
PYOP = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y, "Div": lambda x, y: x / y,
        "FloorDiv": lambda x, y: x // y, "Mod": lambda x, y: x % y, "Pow": lambda x, y: x ** y, "LShift": lambda x, y: x << y,
        "RShift": lambda x, y: x >> y, "BitOr": lambda x, y: x | y, "BitAnd": lambda x, y: x & y, "BitXor": lambda x, y: x ^ y}


def binop(ip, op, a, b, fr, st, node):
    if isinstance(a, Ite) and not is_num(a):
        return ip.fork(a.c, lambda s: binop(ip, op, a.a, b, fr, s, node), lambda s: binop(ip, op, a.b, b, fr, s, node), st)
    if isinstance(b, Ite) and not is_num(b):
        return ip.fork(b.c, lambda s: binop(ip, op, a, b.a, fr, s, node), lambda s: binop(ip, op, a, b.b, fr, s, node), st)
    ra = st.heap.get(a.id) if isinstance(a, Ref) else None
    rb = st.heap.get(b.id) if isinstance(b, Ref) else None
    if isinstance(ra, ObjRec) or isinstance(rb, ObjRec):
        m = OPMETH[op]
        rm = "__r" + m[2:]
        order = [(a, m, b, ra), (b, rm, a, rb)]
        if isinstance(ra, ObjRec) and isinstance(rb, ObjRec) and ra.cls.qual != rb.cls.qual and rb.cls.subclass_of(ra.cls):
            order.reverse()
        if isinstance(ra, ObjRec) and isinstance(rb, ObjRec) and ra.cls.qual == rb.cls.qual:
            order = order[:1]

        def go(i, s):
            if i == len(order):
                if not isinstance(ra, ObjRec) and (isinstance(ra, ArrRec) or tyof(a) == "ndarray"):
                    return Opaque("array of objects")
                ip.raise_now("TypeError", fr, s, node)
            x, name, y, r = order[i]
            f = r.cls.lookup(name)[0] if isinstance(r, ObjRec) else None
            if f is None:
                return go(i + 1, s)
            v = ip.call(BoundV(f, x), [y], {}, fr, s, node)
            return ip.fork(identity_eq(ip, v, NOTIMPL, s), lambda t: go(i + 1, t), lambda t: _strip(v, t), s)
        return go(0, st)
    # sequences and strings
    if op == "Add":
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(ra, ListRec) and isinstance(rb, ListRec):
            if ra.elems is not None and rb.elems is not None:
                return st.new(ListRec(ra.elems + rb.elems, owner="fresh"))
            return st.new(ListRec(None, App("concat", (freeze(ip, a, st), freeze(ip, b, st)), "seq"), owner="fresh"))
        if str_like(a) and str_like(b):
            return strcat([a, b])
        ka, kb = seq_kind(a, ra), seq_kind(b, rb)
        if ka and kb and (ka != kb or ka in ("range", "dict", "set", "none")):
            ip.raise_now("TypeError", fr, st, node)
    if op == "Mod" and str_like(a):
        return percent(ip, a, b, fr, st, node)
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if tyof(y) in ("float", "complex") and is_num(y) and not isinstance(y, Opaque) and (isinstance(x, Tup) or str_like(x) or isinstance(x, Ref) and isinstance(st.heap.get(x.id), ListRec)):
                ip.raise_now("TypeError", fr, st, node)
            n = y.v if isinstance(y, Const) and isinstance(y.v, int) else None
            if isinstance(x, Tup) and (n is not None):
                if len(x.items) * n > 5000:
                    raise Undecided("large repetition")
                return Tup(x.items * n)
            if isinstance(x, Ref) and isinstance(st.heap.get(x.id), ListRec) and n is not None:
                r = st.rec(x)
                if r.elems is not None:
                    return st.new(ListRec(r.elems * n, owner="fresh"))
            if isinstance(x, Const) and isinstance(x.v, str) and n is not None:
                return Const(x.v * n)
            if isinstance(x, Tup) and is_num(y):
                return Opaque("tuple repetition")
    if isinstance(ra, DictRec) and isinstance(rb, DictRec) and (is_counter(ra) or is_counter(rb)):
        raise Undecided("counter arithmetic")
    if op == "BitOr" and isinstance(ra, DictRec) and isinstance(rb, DictRec) and ra.kind == rb.kind == "dict" and rb.items is not None:
        r = ra.copy()
        r.owner = "fresh"
        d = st.new(r)
        for k, x in rb.items:
            setitem(ip, d, k, x, fr, st, node)
        return d
    if isinstance(ra, DictRec) and isinstance(rb, DictRec) and ra.kind in ("set", "frozenset") and (ra.kind == "set" or rb.kind in ("set", "frozenset")):
        v = set_op(ip, op, a, b, fr, st, node)
        if ra.kind == "frozenset":
            st.heap[v.id] = st.rec(v).copy()
            st.heap[v.id].kind = "frozenset"
        return v
    if isinstance(a, ExtV) or isinstance(b, ExtV) or (isinstance(a, App) and a.op == "path") or (isinstance(b, App) and b.op == "path"):
        if op == "Div":
            return App("path", tuple(pp(x) for x in flat_path(ip, a, st)) + tuple(pp(x) for x in flat_path(ip, b, st)), "path")
    # arrays
    if is_arr(st, a) or is_arr(st, b):
        return arr_binop(ip, op, a, b, fr, st, node)
    if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
        return bitop(ip, op, a, b, fr, st, node)
    if (isinstance(a, Const) and isinstance(a.v, (str, bytes)) and not (op == "Mult")) or (isinstance(b, Const) and isinstance(b.v, str)):
        if is_num(a) or is_num(b) or isinstance(a, Const) and isinstance(b, Const):
            ip.raise_now("TypeError", fr, st, node)
    return num_binop(ip, op, a, b, fr, st, node)


def flat_path(ip, v, st):
    if isinstance(v, App) and v.op == "path":
        return list(v.args)
    return [freeze(ip, v, st)]


def pp(x):
    return x


def num_binop(ip, op, a, b, fr, st, node):
    for x in (a, b):
        if isinstance(x, Const) and not isinstance(x.v, (int, float, complex)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque("binop")
            ip.raise_now("TypeError", fr, st, node)
        if isinstance(x, Tup):
            o = b if x is a else a
            if is_num(o):
                ip.raise_now("TypeError", fr, st, node)
            return Opaque("binop on tuple")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        t = [tyof(a), tyof(b)]
        return Opaque("arith", "num" if all(x in NUMT for x in t) else "any")
    if not is_num(a) or not is_num(b):
        ta, tb = tyof(a), tyof(b)
        if ta == "foreign" or tb == "foreign":
            ip.raise_now("TypeError", fr, st, node)
        a2, b2 = freeze(ip, a, st), freeze(ip, b, st)
        if not is_num(a2) or not is_num(b2):
            return App("op:" + op, (a2, b2), "any")
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        if isinstance(b, Const) and b.v == 0:
            ip.raise_now("ZeroDivisionError", fr, st, node)
        return div(a, b)
    if op == "Pow":
        return power(a, b)
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return Const(PYOP[op](a.v, b.v))
        except ZeroDivisionError:
            ip.raise_now("ZeroDivisionError", fr, st, node)
        except TypeError:
            ip.raise_now("TypeError", fr, st, node)
    if op == "Mod" and isinstance(b, Const) and b.v == 2 and is_num(a):
        if isinstance(a, BitsV):
            return a.bits[0] if a.bits else Const(0)
        r = mod2(a)
        if r is not None:
            return intize(r)
    if op in ("FloorDiv", "Mod") and isinstance(b, Const) and isinstance(b.v, int) and b.v > 0 and b.v & (b.v - 1) == 0 and isinstance(a, BitsV):
        k = b.v.bit_length() - 1
        return BitsV(a.bits[k:]) if op == "FloorDiv" else BitsV(a.bits[:k])
    if op in ("FloorDiv",):
        return App("floordiv", (a, b), "int" if tyof(a) == tyof(b) == "int" else "num")
    if op == "Mod":
        return App("mod", (a, b), "int" if tyof(a) == tyof(b) == "int" else "num")
    raise Undecided("operator " + op)


def bitop(ip, op, a, b, fr, st, node):
    if is_bool(a) and is_bool(b):
        if op == "BitAnd":
            return b_and(a, b)
        if op == "BitOr":
            return b_or(a, b)
        if op == "BitXor":
            return b_xor(a, b)
    if isinstance(a, Const) and isinstance(b, Const):
        try:
            return Const(PYOP[op](a.v, b.v))
        except (TypeError, ValueError):
            ip.raise_now("TypeError", fr, st, node)
    if op in ("LShift", "RShift"):
        if op == "LShift" and isinstance(a, Const) and a.v == 1 and is_num(b):
            return App("shl", (Const(1), b), "int")
        xa = as_bits(a)
        if xa is not None and isinstance(b, Const) and isinstance(b.v, int) and b.v >= 0:
            return BitsV((Const(0),) * b.v + tuple(xa)) if op == "LShift" else BitsV(xa[b.v:])
        return App("shl" if op == "LShift" else "shr", (freeze(ip, a, st), freeze(ip, b, st)), "int")
    if op == "BitAnd":         # a negative integer has ones beyond every bit of the other
        a, b = (b, a) if isinstance(a, Const) and isinstance(a.v, int) and a.v < 0 else (a, b)
        if isinstance(b, Const) and isinstance(b.v, int) and b.v < 0 and isinstance(a, BitsV):
            b = Const(b.v & ((1 << len(a.bits)) - 1))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == "op:Invert" and isinstance(x.args[0], BitsV) and as_bits(y) is not None:
                ya, z = as_bits(y), x.args[0].bits
                out = [intize(as01(b_and(asbool01(q), b_not(asbool01(z[i])) if i < len(z) else TRUE))) for i, q in enumerate(ya)]
                return Const(sum(q.v << i for i, q in enumerate(out))) if all(isinstance(q, Const) for q in out) else BitsV(out)
    xa, xb = bits_of(a), bits_of(b)
    if xa is None or xb is None:
        if op == "BitAnd" and isinstance(b, Const) and b.v == 1 and is_num(a):
            r = mod2(a)
            if r is not None:
                return intize(r)
        if op == "BitXor" and isinstance(b, Const) and b.v == 1 and is_num(a):
            # toggling a 0/1 value
            r = mod2(a)
            if r is not None and intize(r) == intize(a):
                return sub(Const(1), a)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("bit operation", "int")
        return App("bit:" + op, (freeze(ip, a, st), freeze(ip, b, st)), "int")
    n = max(len(xa), len(xb))
    out = []
    for i in range(n):
        p = asbool01(xa[i]) if i < len(xa) else FALSE
        q = asbool01(xb[i]) if i < len(xb) else FALSE
        out.append(intize(as01({"BitAnd": b_and, "BitOr": b_or, "BitXor": b_xor}[op](p, q))))
    r = BitsV(out)
    if all(isinstance(x, Const) for x in r.bits):
        return Const(sum(x.v << i for i, x in enumerate(r.bits)))
    if len(r.bits) == 1:
        return as01(r.bits[0])
    return r


def bits_of(v):
    r = as_bits(v)
    if r is not None:
        return r
    # a 0/1-valued polynomial over indicators
    if isinstance(v, Poly):
        try:
            sq = mul(v, v)
            if intize(sq) == intize(v):
                return (intize(v),)
        except Undecided:
            return None
    if isinstance(v, (Sym, App)) and v.ty == "bool":
        return (v,)
    return None


def arr_binop(ip, op, a, b, fr, st, node):
    if op == "MatMult":
        return matmul(ip, a, b, fr, st, node)
    ga, gb = arr_get(ip, st, a), arr_get(ip, st, b)
    for x in (a, b):
        if isinstance(x, Const) and not isinstance(x.v, (int, float, complex)):
            ip.raise_now("TypeError", fr, st, node)
    sparse = any(isinstance(x, Ref) and isinstance(st.heap.get(x.id), ArrRec) and st.heap[x.id].kind == "sparse" for x in (a, b))
    if ga is not None and gb is not None:
        if sparse and op == "Mult" and ga[0] != () and gb[0] != ():
            return matmul(ip, a, b, fr, st, node)
        try:
            sh, ea, eb = broadcast(ga, gb)
        except ShapeError:
            ip.raise_now("ValueError", fr, st, node)
        el = []
        for x, y in zip(ea, eb):
            if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
                el.append(bitop(ip, op, x, y, fr, st, node))
            else:
                el.append(num_binop(ip, op, x, y, fr, st, node))
        return scalar_or_arr(st, sh, el, kind="sparse" if sparse else "ndarray")
    ea, eb = arr_expr(ip, st, a), arr_expr(ip, st, b)
    shape = None
    if has_poison(ea) or has_poison(eb):
        return new_arr(st, expr=Opaque("array arithmetic", "ndarray"))
    if op in ("Add", "Sub", "Mult", "Div", "Pow") and is_num(ea) and is_num(eb):
        f = {"Add": add, "Sub": sub, "Mult": mul, "Div": div, "Pow": power}[op]
        if op == "Div" and tyof(eb) == "ndarray":
            return new_arr(st, expr=App("op:Div", (ea, eb), "ndarray"))
        if sparse and op == "Mult" and tyof(ea) == "ndarray" and tyof(eb) == "ndarray":
            return matmul(ip, a, b, fr, st, node)
        e = f(ea, eb)
        if tyof(e) != "ndarray" and isinstance(e, Const):
            e = App("zeros", (), "ndarray") if e.v == 0 else e
        return new_arr(st, expr=e, kind="sparse" if sparse else "ndarray")
    return new_arr(st, expr=App("op:" + op, (ea, eb), "ndarray"))


def has_poison(v):
    return isinstance(v, Opaque)


def unop(ip, op, v, fr, st, node):
    if isinstance(v, Ref):
        r = st.heap.get(v.id)
        if isinstance(r, ObjRec):
            name = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op]
            f, _ = r.cls.lookup(name)
            if f is None:
                ip.raise_now("TypeError", fr, st, node)
            return ip.call(BoundV(f, v), [], {}, fr, st, node)
        g = arr_get(ip, st, v)
        if g is not None:
            if op == "Invert" and g[1] and all(is_bool(x) for x in g[1]):
                return scalar_or_arr(st, g[0], [b_not(x) for x in g[1]])
            return scalar_or_arr(st, g[0], [unop(ip, op, x, fr, st, node) for x in g[1]])
        if op == "USub":
            return arr_binop(ip, "Mult", Const(-1), v, fr, st, node)
        return new_arr(st, expr=App("op:" + op, (freeze(ip, v, st),), "ndarray"))
    if op == "USub":
        if isinstance(v, Const) and not isinstance(v.v, (int, float, complex)):
            ip.raise_now("TypeError", fr, st, node)
        if isinstance(v, Opaque) or not is_num(v):
            return Opaque("negation", tyof(v))
        return neg(v)
    if op == "UAdd":
        return v
    if op == "Invert":
        if is_bool(v):
            return Opaque("inverted truth value")     # Python's ~True is -2, numpy's is False
        if isinstance(v, Const):
            return Const(~v.v)
        if isinstance(v, BitsV):
            return App("op:Invert", (v,), "int")
        return sub(neg(v), Const(1)) if is_num(v) and not isinstance(v, Opaque) else Opaque("invert")
    raise Undecided("unary operator")


# ----------------------------------------------------------------- matrix products
def matmul(ip, a, b, fr, st, node):
    ga, gb = arr_get(ip, st, a), arr_get(ip, st, b)
    if ga is not None and gb is not None:
        if ga[0] == () or gb[0] == ():
            return arr_binop(ip, "Mult", a, b, fr, st, node)
        (sa, ea), (sb, eb) = ga, gb
        if len(sa) <= 2 and len(sb) <= 2:
            n = sa[0] if len(sa) == 2 else 1
            k = sa[-1]
            k2 = sb[0]
            m = sb[1] if len(sb) == 2 else 1
            if k != k2:
                ip.raise_now("ValueError", fr, st, node)
            out = []
            for i in range(n):
                for j in range(m):
                    acc = Const(0)
                    for l in range(k):
                        x, y = ea[i * k + l], eb[l * m + j]
                        if isinstance(x, Const) and x.v == 0 or isinstance(y, Const) and y.v == 0:
                            continue
                        acc = add(acc, mul(x, y))
                    out.append(acc)
            sh = (() if len(sa) == 1 else (n,)) + (() if len(sb) == 1 else (m,))
            kinds = [st.heap[x.id].kind for x in (a, b) if isinstance(x, Ref) and isinstance(st.heap.get(x.id), ArrRec)]
            return scalar_or_arr(st, sh, out, kind="sparse" if kinds and all(k == "sparse" for k in kinds) else "ndarray")
    e = mm_expr(arr_expr(ip, st, a), arr_expr(ip, st, b))
    if isinstance(e, Val) and tyof(e) != "ndarray":
        return e
    return new_arr(st, expr=e)


def lin_split(e):
    """e = sum of scalar * array-atom; list of (scalar Val, atom) or None"""
    if isinstance(e, (Sym, App, Opaque)) and e.ty == "ndarray":
        return [(Const(1), e)]
    if isinstance(e, Poly):
        out = []
        for m, c in e.terms:
            arrs = [(a, n) for a, n in m if tyof(a) == "ndarray"]
            if len(arrs) != 1 or arrs[0][1] != 1:
                return None
            rest = mk_poly({tuple(x for x in m if x[0] != arrs[0][0]): c}, "num")
            out.append((rest, arrs[0][0]))
        return out
    return None


def mm_expr(a, b):
    la, lb = lin_split(a), lin_split(b)
    if la is None or lb is None:
        return App("matmul", (a, b), "ndarray")
    acc = Const(0)
    for ca, x in la:
        for cb, y in lb:
            ch = _chain(x) + _chain(y)
            ch = [c for c in ch if not (isinstance(c, App) and c.op == "identity")] or [App("identity", (), "ndarray")]
            p = ch[0] if len(ch) == 1 else App("matmul", tuple(ch), "ndarray")
            acc = add(acc, mul(mul(ca, cb), p))
    return acc


def _chain(x):
    return list(x.args) if isinstance(x, App) and x.op == "matmul" else [x]


def mat_inv(ip, m, fr, st, node):
    e = arr_expr(ip, st, m)
    return inv_expr(e)


def inv_expr(e):
    if isinstance(e, Poly):
        ld = leading(terms(e))
        q = scale(e, 1 / ld) if ld != 1 else e
        r = App("inv", (q,), "ndarray")
        return scale(r, 1 / ld) if ld != 1 else r
    return App("inv", (e,), "ndarray")


def inner(ip, a, b, conj_first, fr, st, node):
    ga, gb = arr_get(ip, st, a), arr_get(ip, st, b)
    if ga is not None and gb is not None and len(ga[1]) == len(gb[1]):
        acc = Const(0)
        for x, y in zip(ga[1], gb[1]):
            acc = add(acc, mul(conj(x) if conj_first else x, y))
        return acc
    ea, eb = arr_expr(ip, st, a), arr_expr(ip, st, b)
    if has_poison(ea) or has_poison(eb):
        return Opaque("inner product", "num")
    if conj_first:
        ea = conj(ea)
    la, lb = lin_split(ea), lin_split(eb)
    if la is None or lb is None:
        return App("inner", (ea, eb), "complex")
    acc = Const(0)
    for ca, x in la:
        for cb, y in lb:
            acc = add(acc, mul(mul(ca, cb), App("inner", (x, y), "complex")))
    return acc


# ================================================================= strings
def strcat(parts):
    out = []
    for p in parts:
        if isinstance(p, App) and p.op == "strcat":
            sub_ = p.args
        else:
            sub_ = (p,)
        for q in sub_:
            if isinstance(q, Const) and isinstance(q.v, str) and out and isinstance(out[-1], Const):
                out[-1] = Const(out[-1].v + q.v)
            elif isinstance(q, Const) and q.v == "":
                continue
            else:
                out.append(q)
    if not out:
        return Const("")
    if len(out) == 1 and isinstance(out[0], Const):
        return out[0]
    return App("strcat", tuple(out), "str")


def to_str(ip, v, rep, fr, st, node):
    """str(v) or repr(v)"""
    if isinstance(v, Const):
        if isinstance(v.v, str) and not rep:
            return v
        if isinstance(v.v, (int, str, bool, type(None))):
            return Const(repr(v.v) if rep else str(v.v))
        return App("repr" if rep else "str", (v, Const("")), "str")
    if tyof(v) == "str" and not rep:
        return v
    if isinstance(v, Ref):
        r = st.rec(v)
        if isinstance(r, ObjRec):
            names = ("__repr__",) if rep else ("__str__", "__repr__")
            for n in names:
                f, _ = r.cls.lookup(n)
                if f is not None:
                    return ip.call(BoundV(f, v), [], {}, fr, st, node)
    if isinstance(v, Tup):
        return App("repr", (freeze(ip, v, st), Const("")), "str")
    return App("repr" if rep and not (is_num(v)) else "str", (freeze(ip, v, st), Const("")), "str")


def fmt_piece(ip, v, conv, spec, fr, st, node):
    if spec is None:
        return App("fmt", (freeze(ip, v, st), Const("?")), "str")
    if conv in ("r", "s", "a"):
        s = to_str(ip, v, conv != "s", fr, st, node)
    elif spec == "" or (spec and spec[0] in "<>^" and spec[1:].isdigit()):
        if isinstance(v, Ite):
            return ip.fork(v.c, lambda t: fmt_piece(ip, v.a, conv, spec, fr, t, node), lambda t: fmt_piece(ip, v.b, conv, spec, fr, t, node), st)
        s = to_str(ip, v, False, fr, st, node)
    else:
        if isinstance(v, Const):
            try:
                return Const(format(v.v, spec))
            except Exception:
                ip.raise_now("ValueError", fr, st, node)
        return App("fmt", (freeze(ip, v, st), Const(spec)), "str")
    if spec:
        if isinstance(s, Const):
            return Const(format(s.v, spec))
        return App("fmt", (s, Const(spec)), "str")
    return s


def str_format(ip, tmpl, args, kw, fr, st, node):
    out = []
    auto = 0
    try:
        pieces = list(string.Formatter().parse(tmpl))
    except ValueError:
        ip.raise_now("ValueError", fr, st, node)
    for lit, field, spec, conv in pieces:
        if lit:
            out.append(Const(lit))
        if field is None:
            continue
        if spec and "{" in spec:
            sp = str_format(ip, spec, args, kw, fr, st, node)
            spec = sp.v if isinstance(sp, Const) else None
        first, rest = string.Formatter().parse and _field_split(field)
        if first == "":
            v = args[auto] if auto < len(args) else None
            auto += 1
        elif first.isdigit():
            v = args[int(first)] if int(first) < len(args) else None
        else:
            v = kw.get(first)
        if v is None:
            ip.raise_now("IndexError", fr, st, node)
        for isattr, name in rest:
            v = ip.getattr(v, name, fr, st, node) if isattr else getitem(ip, v, Const(name), fr, st, node)
        out.append(fmt_piece(ip, v, conv or "", spec, fr, st, node))
    return strcat(out)


def _field_split(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return str(first), list(rest)


def percent(ip, a, b, fr, st, node):
    if isinstance(a, Const):
        vals = list(b.items) if isinstance(b, Tup) else [b]
        import re
        if "%(" in a.v or "*" in a.v:
            return Opaque("percent format", "str")
        out, pos, k = [], 0, 0
        for m in re.finditer(r"%([-+ #0-9.]*)([sdrfgxi%])", a.v):
            out.append(Const(a.v[pos:m.start()]))
            pos = m.end()
            if m.group(2) == "%":
                out.append(Const("%"))
                continue
            if k >= len(vals):
                ip.raise_now("TypeError", fr, st, node)
            v = vals[k]
            k += 1
            if m.group(2) in "sr" and not m.group(1):
                out.append(to_str(ip, v, m.group(2) == "r", fr, st, node))
            elif m.group(2) in "di" and not m.group(1) and isinstance(v, Const):
                out.append(Const(str(int(v.v))))
            elif m.group(2) in "di" and not m.group(1):
                out.append(to_str(ip, v, False, fr, st, node))
            elif isinstance(v, Const):
                out.append(Const(m.group(0) % v.v))
            else:
                out.append(App("fmt", (freeze(ip, v, st), Const(m.group(1) + m.group(2))), "str"))
        out.append(Const(a.v[pos:]))
        return strcat(out)
    return App("percent", (freeze(ip, a, st), freeze(ip, b, st)), "str")


STR_PURE = {"upper", "lower", "strip", "lstrip", "rstrip", "split", "replace", "startswith", "endswith", "join", "format", "title",
            "find", "index", "count", "isdigit", "isalpha", "zfill", "ljust", "rjust", "center", "capitalize", "partition", "removeprefix",
            "removesuffix", "encode", "splitlines", "isidentifier", "swapcase", "casefold", "rsplit", "rpartition", "rfind", "rindex", "expandtabs", "isalnum", "isnumeric", "isdecimal", "isspace", "isupper",
            "islower", "istitle", "isprintable", "isascii", "translate", "maketrans"}


def foreign_text(p):
    """text that cannot overlap the text of a number or of a tuple of numbers"""
    return bool(p) and p[0] in "$\\{}_^" and p[-1] in "$\\{}_^" and not any(x.isdigit() for x in p) and not any(w in p for w in ("nan", "inf", "True", "False", "None"))


def mixed_text(name, parts, args, st):
    """string method of literal pieces and texts of numbers, for a pattern which does not occur in the latter"""
    if not all(isinstance(p, Const) or isinstance(p, App) and p.op in ("str", "repr") and numeric_text(p.args[0]) for p in parts):
        return None
    if name == "replace":
        return strcat([Const(p.v.replace(*args)) if isinstance(p, Const) else p for p in parts])
    if name == "split":
        out = [[]]
        for p in parts:
            if isinstance(p, Const):
                bits = p.v.split(args[0])
                out[-1].append(Const(bits[0]))
                out += [[Const(b)] for b in bits[1:]]
            else:
                out[-1].append(p)
        return st.new(ListRec([strcat(o) for o in out], owner="fresh"))
    if name in ("startswith", "endswith"):
        e = parts[0 if name == "startswith" else -1]
        if not isinstance(e, Const):
            return FALSE
        return Const(getattr(e.v, name)(args[0])) if len(args[0]) <= len(e.v) else None
    ps = list(parts)
    if set(args[0]) - set("$\\{}_^"):
        return None
    if name in ("strip", "lstrip") and isinstance(ps[0], Const):
        ps[0] = Const(ps[0].v.lstrip(args[0]))
    if name in ("strip", "rstrip") and isinstance(ps[-1], Const):
        ps[-1] = Const(ps[-1].v.rstrip(args[0]))
    return strcat(ps)


def numeric_text(v):
    if isinstance(v, Tup):
        return all(numeric_text(x) for x in v.items)
    return is_num(v) or isinstance(v, Const) and isinstance(v.v, (int, float, complex))


NOT_PLAIN = object()


def plain_arg(a, st):
    """the Python value of an argument made of constants"""
    if isinstance(a, Const):
        return a.v
    if isinstance(a, Tup):
        r = [plain_arg(x, st) for x in a.items]
        return NOT_PLAIN if NOT_PLAIN in r else tuple(r)
    r = st.heap.get(a.id) if isinstance(a, Ref) else None
    if isinstance(r, DictRec) and r.items is not None and r.kind == "dict" and all(isinstance(k, Const) and isinstance(x, Const) for k, x in r.items):
        return {k.v: x.v for k, x in r.items}
    return NOT_PLAIN


def str_method(ip, s, name, args, kw, fr, st, node):
    if name == "format":
        if isinstance(s, Const):
            return str_format(ip, s.v, args, kw, fr, st, node)
        return App("strmeth", (s, Const(name)) + tuple(freeze(ip, a, st) for a in args), "str")
    if name == "join":
        el = ip.iter_elems(args[0], fr, st, node, soft=True)
        if el is not None:
            out = []
            for i, x in enumerate(el):
                if i:
                    out.append(s)
                if not str_like(x) and kind(x, st) is not None and kind(x, st) != "str":
                    ip.raise_now("TypeError", fr, st, node)
                out.append(x)
            return strcat(out)
        return App("join", (s, freeze(ip, args[0], st)), "str")
    pa = [plain_arg(a, st) for a in args] if isinstance(s, Const) and not kw and name in STR_PURE else [NOT_PLAIN]
    if NOT_PLAIN not in pa:
        try:
            r = str.maketrans(s.v, *pa) if name == "maketrans" else getattr(s.v, name)(*pa)
        except Exception as e:
            ip.raise_now(type(e).__name__, fr, st, node)
        if isinstance(r, list):
            return st.new(ListRec([Const(x) for x in r], owner="fresh"))
        if isinstance(r, tuple):
            return Tup(Const(x) for x in r)
        if isinstance(r, dict):
            return st.new(DictRec(tuple((Const(k), Const(x)) for k, x in r.items()), "dict", owner="fresh"))
        return Const(r)
    if name in ("replace", "split", "startswith", "endswith", "strip", "lstrip", "rstrip") and isinstance(s, App) and s.op in ("strcat", "str", "repr") and args and all(isinstance(a, Const) for a in args) and not kw \
            and (name == "replace" or len(args) == 1) and isinstance(args[0].v, str) and foreign_text(args[0].v):
        r = mixed_text(name, s.args if s.op == "strcat" else (s,), [a.v for a in args], st)
        if r is not None:
            return r
    rt = "bool" if name in ("startswith", "endswith", "isdigit", "isalpha") else "int" if name in ("find", "index", "count") else "str"
    return App("strmeth", (s, Const(name)) + tuple(freeze(ip, a, st) for a in args), rt)


# ================================================================= containers
class NoKey(Exception):
    pass


def pykey(v):
    """the Python value of a fully known key (equality of keys is equality of these values); NoKey otherwise"""
    if isinstance(v, Const):
        x = v.v
        if x is None or x is Ellipsis or x is NotImplemented or isinstance(x, (bool, int, str, bytes)) or isinstance(x, (float, complex)) and x == x:
            return x
        raise NoKey
    if isinstance(v, Tup):
        return tuple([pykey(x) for x in v.items])
    raise NoKey


_index = {}


def key_index(ref, items):
    """{python value: position} of the keys of a container, None when a key is not fully known"""
    old = _index.get(ref.id)
    n = 0
    ix = {}
    if old is not None:
        o, oix = old
        if o is items:
            return oix
        if oix is not None and len(o) <= len(items) and all(map(_is, o, items)):
            n, ix = len(o), oix
    try:
        for i in range(n, len(items)):
            ix.setdefault(pykey(items[i][0]), i)
    except NoKey:
        ix = None
    if len(_index) > 64:
        _index.clear()
    _index[ref.id] = (items, ix)
    return ix


def make_set(ip, el, fr, st, node, kind="set"):
    try:
        d = {}
        for x in el:
            d.setdefault(pykey(x), x)
        return st.new(DictRec(tuple((x, TRUE) for x in d.values()), owner="fresh", kind=kind))
    except NoKey:
        pass
    ref = st.new(DictRec((), owner="fresh", kind=kind))
    for x in el:
        d = dict_find(ip, ref, x, fr, st, node)
        if d is None:
            r = st.rec(ref).copy()
            r.items = None
            r.sym = App("set", (freeze(ip, Tup(el), st),), "set")
            st.heap[ref.id] = r
            return ref
        if d < 0:
            r = st.rec(ref).copy()
            r.items = r.items + ((x, TRUE),)
            st.heap[ref.id] = r
    return ref


def check_hashable(ip, k, fr, st, node):
    if isinstance(k, Ref):
        r = st.heap.get(k.id)
        if isinstance(r, (ListRec, DictRec, ArrRec)) and not (isinstance(r, DictRec) and r.kind == "frozenset"):
            if isinstance(r, ListRec) and r.kind == "iter":
                return
            ip.raise_now("TypeError", fr, st, node)
    if isinstance(k, Tup):
        for x in k.items:
            check_hashable(ip, x, fr, st, node)


def dict_find(ip, ref, k, fr, st, node):
    """index of key, -1 absent, None undecided"""
    check_hashable(ip, k, fr, st, node)
    r = st.rec(ref)
    if r.items is None:
        return None
    if len(r.items) > 4:
        try:
            key = pykey(k)
            ix = key_index(ref, r.items)
            if ix is not None:
                return ix.get(key, -1)
        except NoKey:
            pass
    for i, (kk, _) in enumerate(r.items):
        if kk == k:
            return i
    und = False
    for i, (kk, _) in enumerate(r.items):
        e = truth(ip, rich_compare(ip, "eq", kk, k, fr, st, node), fr, st, node)
        d = st.decide(e)
        if d is True:
            return i
        if d is None:
            und = True
    return None if und else -1


def key_conds(ip, ref, k, fr, st, node):
    r = st.rec(ref)
    return [truth(ip, rich_compare(ip, "eq", kk, k, fr, st, node), fr, st, node) for kk, _ in r.items]


def dict_get(ip, ref, k, fr, st, node, missing):
    """missing(st) gives the value (or raises) when absent"""
    r = st.rec(ref)
    if r.items is None:
        return Opaque("dict lookup")
    i = dict_find(ip, ref, k, fr, st, node)
    if i is None:
        conds = key_conds(ip, ref, k, fr, st, node)

        def go(j, s):
            if j == len(conds):
                return missing(s)
            return ip.fork(conds[j], lambda t: r.items[j][1], lambda t: go(j + 1, t), s)
        return go(0, st)
    if i < 0:
        return missing(st)
    return r.items[i][1]


def norm_index(i, n):
    return i + n if i < 0 else i


def const_slice(sl, n):
    vals = []
    for x in (sl.lo, sl.hi, sl.st):
        if x == NONE:
            vals.append(None)
        elif isinstance(x, Const) and isinstance(x.v, int):
            vals.append(x.v)
        else:
            return None
    return range(*slice(*vals).indices(n))


def getitem_soft(ip, o, i, fr, st, node, unpack=None):
    return getitem(ip, o, i, fr, st, node)


def getitem(ip, o, i, fr, st, node):
    if isinstance(o, Ite):
        return ip.fork(o.c, lambda s: getitem(ip, o.a, i, fr, s, node), lambda s: getitem(ip, o.b, i, fr, s, node), st)
    if isinstance(o, Const) and isinstance(o.v, str):
        if isinstance(i, Const) and isinstance(i.v, int):
            if -len(o.v) <= i.v < len(o.v):
                return Const(o.v[i.v])
            ip.raise_now("IndexError", fr, st, node)
        if isinstance(i, SliceV):
            r = const_slice(i, len(o.v))
            if r is not None:
                return Const("".join(o.v[k] for k in r))
        return App("getitem", (o, freeze(ip, i, st)), "str")
    seq = None
    if isinstance(o, Tup):
        seq = o.items
    elif isinstance(o, App) and o.op == "range" and all(isinstance(a, Const) for a in o.args):
        seq = tuple(Const(k) for k in range(*[a.v for a in o.args]))
    r = st.heap.get(o.id) if isinstance(o, Ref) else None
    if isinstance(r, ListRec):
        seq = r.elems
        if seq is None:
            if isinstance(i, SliceV):
                return st.new(ListRec(None, App("getitem", (freeze(ip, o, st), freeze_slice(ip, i, st)), "seq"), owner="fresh"))
            return App("getitem", (freeze(ip, o, st), freeze(ip, i, st)))
    if seq is not None:
        if isinstance(i, Const) and isinstance(i.v, int):
            if -len(seq) <= i.v < len(seq):
                return seq[i.v]
            ip.raise_now("IndexError", fr, st, node)
        if isinstance(i, SliceV):
            rg = const_slice(i, len(seq))
            if rg is not None:
                el = [seq[k] for k in rg]
                return Tup(el) if isinstance(o, Tup) or r is None else st.new(ListRec(el, owner="fresh"))
            return Opaque("slice")
        if is_num(i) and not isinstance(i, Opaque):
            # unknown index into a known sequence
            b = bits_of(i)
            if is_bool(i):
                i = as01(i)
            conds = [cmp_num("eq", i, Const(k)) for k in range(len(seq))]
            if len(seq) <= 4 and seq:
                def go(k, s):
                    if k == len(seq):
                        ip.raise_now("IndexError", fr, s, node)
                    return ip.fork(conds[k], lambda t: seq[k], lambda t: go(k + 1, t), s)
                return go(0, st)
            return Opaque("element")
        if isinstance(i, Const):
            ip.raise_now("TypeError", fr, st, node)
        return Opaque("element")
    if isinstance(r, DictRec):
        if r.kind == "defaultdict" and r.items is not None:
            k = dict_find(ip, o, i, fr, st, node)
            if k is not None and k < 0:
                v = ip.call(r.default, [], {}, fr, st, node)
                setitem(ip, o, i, v, fr, st, node)
                return v

        def missing(s):
            if is_counter(r):
                return Const(0)
            ip.raise_now("KeyError", fr, s, node)
        return dict_get(ip, o, i, fr, st, node, missing)
    if isinstance(r, ObjRec):
        f, _ = r.cls.lookup("__getitem__")
        if f is not None:
            return ip.call(BoundV(f, o), [i], {}, fr, st, node)
        if not r.cls.ext_bases():
            ip.raise_now("TypeError", fr, st, node)
        return Opaque("item of external object")
    if isinstance(r, ArrRec):
        return arr_getitem(ip, o, r, i, fr, st, node)
    if isinstance(o, ClassV) and o.info.enum and isinstance(i, Const):
        a = o.info.attrs.get(i.v)
        if a is None:
            ip.raise_now("KeyError", fr, st, node)
        return a
    if isinstance(o, Opaque):
        return Opaque("item of " + o.why, "any")
    if isinstance(o, MethV) and o.name == "<keys>":
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(o, (Sym, App, Poly)):
        if tyof(o) in NUMT and tyof(o) != "ndarray":
            ip.raise_now("TypeError", fr, st, node)
        fi = freeze_slice(ip, i, st) if isinstance(i, SliceV) else freeze(ip, i, st)
        if tyof(o) == "ndarray":
            return expr_getitem(o, fi, i, st)
        return App("getitem", (o, fi), "any")
    if isinstance(o, ExtV) and o.name in ("numpy.r_", "numpy.c_", "numpy.mgrid", "numpy.ogrid"):
        from . import nd
        v = nd.index_trick(ip, o.name[6:], i, fr, st, node)
        return Opaque(o.name) if v is None else v
    if isinstance(o, (FuncV, BoundV)) or isinstance(o, Const) and not isinstance(o.v, (str, bytes)):
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(o, (BltV, ExtV, ClassV)):
        return Opaque("subscripted type")
    raise Undecided("subscript")


def freeze_slice(ip, i, st):
    return App("slice", (freeze(ip, i.lo, st), freeze(ip, i.hi, st), freeze(ip, i.st, st)), "slice")


def expr_getitem(e, fi, i, st):
    items = fi.items if isinstance(fi, Tup) else (fi,)
    scalar = all(is_num(x) and tyof(x) != "ndarray" for x in items)
    return App("getitem", (e,) + tuple(items), "num" if scalar else "ndarray")


def index_items(i):
    return list(i.items) if isinstance(i, Tup) else [i]


def arr_getitem(ip, o, r, i, fr, st, node):
    g = arr_get(ip, st, o)
    items = index_items(i)
    if r.kind != "sparse" and any(isinstance(x, Ref) and isinstance(st.heap.get(x.id), DictRec) or isinstance(x, (FuncV, ClassV)) or isinstance(x, Const) and isinstance(x.v, (str, float, complex)) for x in items) \
            and (g is not None or tyof(r.expr) == "ndarray"):
        ip.raise_now("IndexError", fr, st, node)
    if g is None:
        e = arr_expr(ip, st, o)
        if isinstance(e, Opaque):
            ints = all(is_num(x) for x in items)
            basic = all(is_num(x) and not is_arr(st, x) or isinstance(x, SliceV) or x in (NONE, ELLIPSIS) for x in items)
            if ints:
                return Opaque("array element", "num") if e.why != "row" else Opaque("array element", "num")
            return new_arr(st, expr=Opaque("part of array", "ndarray"), base=o.id if basic else None, owner="view" if basic else "fresh")
        its = tuple(freeze_slice(ip, x, st) if isinstance(x, SliceV) else freeze(ip, x, st) for x in items)
        basic = all((is_num(x) and not is_arr(st, x)) or isinstance(x, SliceV) or x in (NONE, ELLIPSIS) for x in items)
        scalar = all(is_num(x) and tyof(x) != "ndarray" and not isinstance(x, Ref) for x in items)
        hit = setitem_lookup(e, its)
        if hit is not None:
            return hit
        if scalar:
            if getattr(r, "shape", None) is not None and len(r.shape) > len(items):
                return new_arr(st, expr=App("getitem", (e,) + its, "ndarray"), base=o.id, owner="view")
            return App("getitem", (e,) + its, "num")
        if all(isinstance(x, SliceV) and x.lo == NONE and x.hi == NONE and x.st == NONE for x in items):
            return new_arr(st, expr=e, base=o.id, owner="view")
        return new_arr(st, expr=App("getitem", (e,) + its, "ndarray"), base=o.id if basic else None, owner="view" if basic else "fresh")
    shape, elems = g
    sel, sh, basic = select(ip, st, shape, items, fr, node)
    if sel is None:
        k = [x for x in items]
        if len(items) == 1 and is_num(items[0]) and not isinstance(items[0], (Opaque, Ref)) and len(shape) == 1 and shape[0] <= 4:
            return getitem(ip, Tup(elems), items[0], fr, st, node)
        if len(items) == 1:
            # boolean mask with undecided entries
            raise_mask = arr_get(ip, st, items[0])
            return new_arr(st, expr=App("getitem", (freeze(ip, o, st), freeze(ip, items[0], st) if not isinstance(items[0], SliceV) else freeze_slice(ip, items[0], st)), "ndarray"))
        return new_arr(st, expr=App("getitem", (freeze(ip, o, st),) + tuple(freeze_slice(ip, x, st) if isinstance(x, SliceV) else freeze(ip, x, st) for x in items), "ndarray"))
    if sh == ():
        return elems[sel[0]]
    if basic:
        base = o.id
        if r.base is not None and r.sel is not None:
            sel = [r.sel[k] for k in sel]
            base = r.base
        return st.new(ArrRec(shape=sh, elems=None if True else (), base=base, sel=tuple(sel), owner="view", kind=r.kind))
    return new_arr(st, sh, [elems[k] for k in sel], kind=r.kind)


def setitem_lookup(e, its):
    """value stored at exactly this index by the latest setitem"""
    while isinstance(e, App) and e.op == "setitem":
        idx, val = e.args[1].items, e.args[2]
        if tuple(idx) == tuple(its):
            return val
        if all(isinstance(x, Const) for x in idx) and all(isinstance(x, Const) for x in its):
            e = e.args[0]
            continue
        return None
    if isinstance(e, App) and e.op == "zeros" and all(is_num(x) and tyof(x) != "ndarray" for x in its):
        return Const(0.0) if len(its) == 1 else None
    return None


def select(ip, st, shape, items, fr, node):
    """flat indices, resulting shape, is_view.  None when not constant."""
    n_real = sum(1 for x in items if x not in (NONE, ELLIPSIS))
    if ELLIPSIS in items:
        k = items.index(ELLIPSIS)
        items = items[:k] + [SliceV(NONE, NONE, NONE)] * (len(shape) - n_real) + items[k + 1:]
    axes = []
    out_shape_parts = []
    d = 0
    adv = []
    shapes = {}
    for x in items:
        if x == NONE:
            axes.append(("new", None))
            continue
        if d >= len(shape):
            st2 = st
            ip.raise_now("IndexError", fr, st, node)
        n = shape[d]
        if isinstance(x, SliceV):
            rg = const_slice(x, n)
            if rg is None:
                return None, None, None
            axes.append(("rng", list(rg), d))
        elif isinstance(x, Const) and isinstance(x.v, int) and not isinstance(x.v, bool):
            if not -n <= x.v < n:
                ip.raise_now("IndexError", fr, st, node)
            axes.append(("int", norm_index(x.v, n), d))
        else:
            g = arr_get(ip, st, x)
            if g is None or not all(isinstance(e, Const) for e in g[1]):
                return None, None, None
            vals = [e.v for e in g[1]]
            if vals and all(isinstance(v, bool) for v in vals):
                if len(g[0]) != 1 or len(vals) != n:
                    return None, None, None
                axes.append(("adv", [k for k, v in enumerate(vals) if v], d))
                adv.append((len([1 for v in vals if v]),))
            elif all(isinstance(v, int) for v in vals):
                if not all(-n <= v < n for v in vals):
                    ip.raise_now("IndexError", fr, st, node)
                axes.append(("adv", [norm_index(v, n) for v in vals], d))
                adv.append(g[0])
                shapes[len(axes) - 1] = g[0]
            else:
                return None, None, None
        d += 1
    while d < len(shape):
        axes.append(("rng", list(range(shape[d])), d))
        d += 1
    if len(adv) > 1 or adv and any(a[0] == "int" for a in axes):
        return select_adv(ip, st, shape, axes, shapes, fr, node)
    ss = strides(shape)
    sh = []
    lists = []
    for n_, a in enumerate(axes):
        if a[0] == "new":
            sh.append(1)
            lists.append([0])
        elif a[0] == "int":
            lists.append([a[1] * ss[a[2]]])
        else:
            sh.extend(shapes[n_] if n_ in shapes else (len(a[1]),))
            lists.append([k * ss[a[2]] for k in a[1]])
    sel = [sum(t) for t in itertools.product(*lists)]
    return sel, tuple(sh), not adv


def select_adv(ip, st, shape, axes, shapes, fr, node):
    """several index arrays (scalars count as such): they are broadcast together; the joint axes replace
    them where they stand, or come first if something stands between them"""
    pos = [k for k, a in enumerate(axes) if a[0] in ("adv", "int")]
    sets = {}
    for k in pos:
        a = axes[k]
        sets[k] = ((), [a[1]]) if a[0] == "int" else (tuple(shapes.get(k, (len(a[1]),))), a[1])
    n = max(len(x[0]) for x in sets.values())
    full = {k: (1,) * (n - len(x[0])) + x[0] for k, x in sets.items()}
    joint = []
    for q in range(n):
        ds = {f[q] for f in full.values()} - {1}
        if len(ds) > 1:
            ip.raise_now("IndexError", fr, st, node)
        joint.append(ds.pop() if ds else 1)
    ss = strides(shape)
    cells = list(itertools.product(*[range(d) for d in joint]))
    offs = []
    for c in cells:
        o = 0
        for k in pos:
            f = full[k]
            flat_ = 0
            for q in range(n):
                flat_ = flat_ * f[q] + (c[q] if f[q] != 1 else 0)
            o += sets[k][1][flat_] * ss[axes[k][2]]
        offs.append(o)
    together = pos == list(range(pos[0], pos[-1] + 1))
    rest = [(k, a) for k, a in enumerate(axes) if k not in pos]
    before = [x for x in rest if together and x[0] < pos[0]]
    after = [x for x in rest if x not in before]
    size = lambda a: 1 if a[0] == "new" else len(a[1])
    lst = lambda a: [0] if a[0] == "new" else [k * ss[a[2]] for k in a[1]]
    sh = tuple(size(a) for _, a in before) + tuple(joint) + tuple(size(a) for _, a in after)
    sel = [sum(t) for t in itertools.product(*[lst(a) for _, a in before], offs, *[lst(a) for _, a in after])]
    return sel, sh, False


def setitem(ip, o, i, v, fr, st, node):
    if isinstance(o, Ite):
        ip.fork(o.c, lambda s: setitem(ip, o.a, i, v, fr, s, node) or NONE, lambda s: setitem(ip, o.b, i, v, fr, s, node) or NONE, st)
        return
    w = ip.where(node, fr)
    if isinstance(o, Ref):
        r = st.rec(o)
        if isinstance(r, DictRec):
            if r.kind in ("mappingproxy", "frozenset"):
                ip.raise_now("TypeError", fr, st, node)
            k = dict_find(ip, o, i, fr, st, node)
            r2 = r.copy()
            if k is None:
                r2.items, r2.sym = None, Opaque("dict with undecided keys")
            elif k < 0:
                r2.items = r.items + ((i, v),)
            else:
                r2.items = r.items[:k] + ((r.items[k][0], v),) + r.items[k + 1:]
            st.write(o, r2, "setitem", w)
            return
        if isinstance(r, ListRec):
            r2 = r.copy()
            if r.elems is None:
                r2.sym = Opaque("list")
            elif isinstance(i, Const) and isinstance(i.v, int):
                if not -len(r.elems) <= i.v < len(r.elems):
                    ip.raise_now("IndexError", fr, st, node)
                k = norm_index(i.v, len(r.elems))
                r2.elems = r.elems[:k] + (v,) + r.elems[k + 1:]
            elif isinstance(i, SliceV) and const_slice(i, len(r.elems)) is not None and (i.st == NONE):
                rg = const_slice(i, len(r.elems))
                el = ip.iter_elems(v, fr, st, node, soft=True)
                if el is None:
                    r2.elems, r2.sym = None, Opaque("list")
                else:
                    lo = rg.start
                    hi = max(rg.stop, lo)
                    r2.elems = r.elems[:lo] + tuple(el) + r.elems[hi:]
            else:
                r2.elems, r2.sym = None, Opaque("list")
            st.write(o, r2, "setitem", w)
            return
        if isinstance(r, ObjRec):
            f, _ = r.cls.lookup("__setitem__")
            if f is None:
                ip.raise_now("TypeError", fr, st, node)
            ip.call(BoundV(f, o), [i, v], {}, fr, st, node)
            return
        if isinstance(r, ArrRec):
            return arr_setitem(ip, o, r, i, v, fr, st, node, w)
    if isinstance(o, (Opaque, App, Sym, ExtV)):
        return
    ip.raise_now("TypeError", fr, st, node)


def arr_setitem(ip, o, r, i, v, fr, st, node, w):
    items = index_items(i)
    g = arr_get(ip, st, o)
    rid = root_id(st, o.id)
    gv = arr_get(ip, st, v)
    k_ = arr_kind(st, o)
    if k_ is not None and gv is not None:
        scalar = not isinstance(v, Ref) and gv[0] == ()
        gv = (gv[0], tuple(cast_elem(ip, x, k_, fr, st, node, scalar) for x in gv[1]))
    gm = arr_get(ip, st, items[0]) if g is not None and gv is not None and len(items) == 1 and isinstance(items[0], Ref) and isinstance(st.rec(items[0]), ArrRec) else None
    if gm is not None and gm[1] and gv[0] == () and gm[0] == g[0] and all(is_bool(x) for x in gm[1]) and any(not isinstance(x, Const) for x in gm[1]) and all(isinstance(x, Const) or is_num(x) for x in g[1] + gv[1]):
        # a mask that is not known yet: every element keeps its value or takes the new one
        new = [ite(m, gv[1][0], x) for m, x in zip(gm[1], g[1])]
        if r.base is not None:
            b = st.heap[r.base].copy()
            els = list(b.elems)
            for k, e in enumerate(new):
                els[r.sel[k]] = e
            b.elems = tuple(els)
            st.heap[r.base] = b
            st.write(Ref(rid), st.heap[rid], "array-write", w)
            return
        r2 = r.copy()
        r2.elems = tuple(new)
        st.write(o, r2, "array-write", w)
        return
    if g is not None:
        sel, sh, basic = select(ip, st, g[0], items, fr, node)
        if sel is not None and gv is not None:
            el = broadcast_to(gv, sh)[1] if sh != () else (gv[1][0],)
            tgt = o
            if r.base is not None:
                b = st.heap[r.base].copy()
                els = list(b.elems)
                for k, e in zip(sel, el):
                    els[r.sel[k]] = e
                b.elems = tuple(els)
                st.heap[r.base] = b
                st.write(Ref(rid), st.heap[rid], "array-write", w)
                return
            els = list(r.elems)
            for k, e in zip(sel, el):
                els[k] = e
            r2 = r.copy()
            r2.elems = tuple(els)
            st.write(o, r2, "array-write", w)
            return
        if sel is not None and gv is None:
            fv = freeze(ip, v, st)
            if k_ is not None:
                fv = cast_elem(ip, fv, k_, fr, st, node)
            if r.base is None and sh == ():
                els = list(r.elems)
                els[sel[0]] = fv
                r2 = r.copy()
                r2.elems = tuple(els)
                st.write(o, r2, "array-write", w)
                return
    its = tuple(freeze_slice(ip, x, st) if isinstance(x, SliceV) else freeze(ip, x, st) for x in items)
    full = all(isinstance(x, SliceV) and x.lo == NONE and x.hi == NONE and x.st == NONE for x in items) or items == [ELLIPSIS]
    e = arr_expr(ip, st, o)
    if r.base is not None:
        b = st.heap[rid].copy()
        b.elems, b.shape, b.expr, b.base, b.sel = None, None, Opaque("written through a view", "ndarray"), None, None
        st.write(Ref(rid), b, "array-write", w)
        return
    r2 = r.copy()
    r2.elems = None
    if full:
        fv = arr_expr(ip, st, v)
        r2.expr = fv if tyof(fv) == "ndarray" else App("full", (fv,), "ndarray")
        if g is not None and gv is None:
            r2.shape = None
    else:
        r2.expr = Opaque("array", "ndarray") if isinstance(e, Opaque) else App("setitem", (e, Tup(its), freeze(ip, v, st)), "ndarray")
        r2.shape = None if r2.shape is None else r2.shape
    st.write(o, r2, "array-write", w)


def delitem(ip, o, i, fr, st, node):
    if isinstance(o, Ref):
        r = st.rec(o)
        r2 = r.copy()
        if isinstance(r, DictRec) and r.items is not None:
            k = dict_find(ip, o, i, fr, st, node)
            if k is None:
                r2.items, r2.sym = None, Opaque("dict")
            elif k < 0:
                ip.raise_now("KeyError", fr, st, node)
            else:
                r2.items = r.items[:k] + r.items[k + 1:]
            st.write(o, r2, "delitem", ip.where(node, fr))
            return
        if isinstance(r, ListRec) and r.elems is not None and isinstance(i, Const):
            if not -len(r.elems) <= i.v < len(r.elems):
                ip.raise_now("IndexError", fr, st, node)
            k = norm_index(i.v, len(r.elems))
            r2.elems = r.elems[:k] + r.elems[k + 1:]
            st.write(o, r2, "delitem", ip.where(node, fr))
            return
    raise Undecided("del item")


def set_op(ip, op, a, b, fr, st, node):
    ra, rb = st.rec(a), st.rec(b)
    if ra.items is None or rb.items is None:
        return st.new(DictRec(None, App("setop:" + op, (freeze(ip, a, st), freeze(ip, b, st)), "set"), kind="set", owner="fresh"))
    xs = [k for k, _ in ra.items]
    ys = [k for k, _ in rb.items]

    def inn(x, c):
        e = truth(ip, contains(ip, c, x, fr, st, node), fr, st, node)
        return st.decide(e)
    try:
        if op == "BitOr":
            return make_set(ip, xs + ys, fr, st, node)
        ina = [inn(x, b) for x in xs]
        if None in ina:
            raise ValueError
        if op == "BitAnd":
            return make_set(ip, [x for x, k in zip(xs, ina) if k], fr, st, node)
        if op == "Sub":
            return make_set(ip, [x for x, k in zip(xs, ina) if not k], fr, st, node)
        if op == "BitXor":
            inb = [inn(y, a) for y in ys]
            if None in inb:
                raise ValueError
            return make_set(ip, [x for x, k in zip(xs, ina) if not k] + [y for y, k in zip(ys, inb) if not k], fr, st, node)
    except ValueError:
        pass
    return st.new(DictRec(None, App("setop:" + op, (freeze(ip, a, st), freeze(ip, b, st)), "set"), kind="set", owner="fresh"))


from .lib2 import *      # noqa: E402,F401,F403  (call models)
from . import lib2 as _l2
_l2.L = __import__("sys").modules[__name__]
