"""Models of external functions (numpy, scipy, itertools, functools, math, pathlib, ...)."""
import itertools
import math
import re

from .state import *
from .vals import *


def _m():
    from . import lib2
    return lib2, lib2.L


def kwpairs(ip, kw, st, L, drop=()):
    return tuple(Tup((Const(k), L.freeze(ip, v, st))) for k, v in sorted(kw.items()) if k not in drop and isinstance(v, Val))


def generic(ip, name, args, kw, fr, st, node, ty=None):
    B, L = _m()
    if name.startswith("numpy."):
        from . import nd
        v = nd.try_np(ip, name[6:], args, kw, fr, st, node)
        if v is not None:
            return v
    B.log_call(ip, name, args, kw, fr, st, node)
    fa = tuple(L.freeze(ip, a, st) for a in args)
    kp = kwpairs(ip, kw, st, L)
    root = name.split(".")[0]
    if ty is None and root == "numpy":
        ty = "str" if name[6:] in NP_STR else "any" if name[6:] in NP_OTHER else None
    arr = ty == "ndarray" or (ty is None and root in ("numpy", "scipy"))
    short = "np." + name[6:] if root == "numpy" else name
    if any(has_opaque(a) for a in fa + kp):
        v = Opaque(short, "ndarray" if arr else (ty or "any"))
    else:
        v = App(short, fa + kp, "ndarray" if arr else (ty or "any"))
    if arr:
        return L.new_arr(st, expr=v)
    return v


NP_STR = {"array2string", "array_repr", "array_str", "base_repr", "binary_repr", "format_float_positional", "format_float_scientific"}
NP_OTHER = {"divmod", "modf", "frexp", "histogram", "histogram2d", "histogramdd", "nonzero", "flatnonzero", "unravel_index", "meshgrid", "split", "array_split", "hsplit", "vsplit", "dsplit",
            "broadcast_arrays", "ix_", "mgrid", "ogrid", "ndenumerate", "ndindex", "nditer", "broadcast", "linalg.qr", "linalg.svd", "linalg.eig", "linalg.eigh", "linalg.lstsq",
            "linalg.slogdet", "linalg.det", "linalg.cond", "linalg.matrix_rank", "result_type", "promote_types", "can_cast", "min_scalar_type", "iinfo", "finfo", "dtype", "isscalar",
            "iscomplexobj", "isrealobj", "may_share_memory", "shares_memory", "trapz", "average", "median", "nanmedian", "nanmean", "nansum", "nanmax", "nanmin", "quantile", "percentile",
            "std", "var", "ptp", "searchsorted", "interp", "errstate", "seterr", "geterr", "get_printoptions", "printoptions", "vectorize", "frompyfunc", "random.default_rng", "lookfor",
            "polynomial.polynomial.Polynomial", "poly1d", "testing.assert_allclose", "iterable", "ndim", "size", "shape"}
UFUNC1 = {"sqrt", "sin", "cos", "tan", "exp", "arccos", "arcsin", "arctan", "floor", "ceil", "rint", "log", "trunc"}
UNAME = {"arccos": "acos", "arcsin": "asin", "arctan": "atan", "acos": "acos", "asin": "asin", "atan": "atan"}
BINF = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "mod": "Mod", "remainder": "Mod",
        "floor_divide": "FloorDiv", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor", "left_shift": "LShift", "right_shift": "RShift",
        "float_power": "Pow"}
CMPF = {"equal": "eq", "not_equal": "ne", "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge"}
SCALAR_TYPES = {"int64": "int", "int32": "int", "uint64": "int", "uint32": "int", "intp": "int", "int_": "int", "int8": "int", "int16": "int", "uint8": "int", "uint16": "int",
                "float64": "float", "float32": "float", "float_": "float", "double": "float", "complex128": "complex", "complex64": "complex", "complex_": "complex",
                "bool_": "bool", "longlong": "int", "uint": "int"}


def call_ext(ip, name, args, kw, fr, st, node):
    B, L = _m()
    root, _, rest = name.partition(".")
    if root == "numpy":
        return call_np(ip, name, rest, args, kw, fr, st, node)
    if root == "scipy":
        return call_scipy(ip, name, rest, args, kw, fr, st, node)
    if root == "math" or root == "cmath":
        return call_math(ip, name, rest, args, kw, fr, st, node)
    if root == "itertools":
        return call_itertools(ip, rest, args, kw, fr, st, node)
    if root == "functools":
        if rest == "partial":
            ex = [Const(len(args) - 1)] + list(args[1:])
            for k, v in kw.items():
                ex += [Const(k), v]
            return WrapV("partial", args[0], ex)
        if rest == "reduce":
            el = B.elems(ip, args[1], fr, st, node)
            if el is None:
                return generic(ip, name, args, kw, fr, st, node)
            el = list(el)
            if len(args) > 2:
                acc = args[2]
            elif el:
                acc = el.pop(0)
            else:
                ip.raise_now("TypeError", fr, st, node)
            for x in el:
                acc = ip.call(args[0], [acc, x], {}, fr, st, node)
            return acc
        if rest in ("lru_cache", "cache"):
            if args and isinstance(args[0], (FuncV, WrapV)):
                return WrapV("cache", args[0], ())
            return App("decorator", ("lru_cache",))
        if rest == "wraps":
            return App("decorator", ("wraps",))
        if rest == "cmp_to_key":
            return Opaque("cmp_to_key")
    if root == "operator":
        return call_operator(ip, rest, args, kw, fr, st, node)
    if root == "numba":
        if args and isinstance(args[0], FuncV) and len(args) == 1:
            return args[0]
        return App("decorator", ("numba",))
    if root == "copy":
        v = args[0]
        if isinstance(v, Ref):
            return copy_val(ip, v, rest == "deepcopy", fr, st, node)
        return v
    if root == "collections":
        if rest == "OrderedDict":
            d = B.b__dict(ip, args, kw, fr, st, node)
            r = st.rec(d).copy()
            r.kind = "OrderedDict"
            st.heap[d.id] = r
            return d
        if rest == "defaultdict":
            d = B.b__dict(ip, args[1:], kw, fr, st, node)
            r = st.rec(d).copy()
            r.kind, r.default = "defaultdict", args[0] if args else NONE
            st.heap[d.id] = r
            return d
        if rest == "deque":
            if kw or len(args) > 1:
                raise Undecided("bounded deque")
            d = B.b__list(ip, args[:1], {}, fr, st, node)
            r = st.rec(d).copy()
            r.kind = "deque"
            st.heap[d.id] = r
            return d
        if rest == "Counter" and args:
            el = B.elems(ip, args[0], fr, st, node)
            if el is not None:
                d = L.make_set(ip, el, fr, st, node, "dict")
                r = st.rec(d).copy()
                if r.items is not None:
                    out = []
                    for k, _ in r.items:
                        acc = Const(0)
                        for x in el:
                            acc = add(acc, as01(L.truth(ip, L.rich_compare(ip, "eq", k, x, fr, st, node), fr, st, node)))
                        out.append((k, acc))
                    r.items = tuple(out)
                r.default = BltV("Counter")
                st.heap[d.id] = r
                return d
        raise Undecided("collections." + rest)
    if root == "pathlib":
        if rest in ("Path", "PurePath", "PosixPath"):
            return App("path", tuple(x for a in args for x in L.flat_path(ip, a, st)), "path")
        if rest.startswith("Path."):
            return App("path", (Const("<%s>" % rest),), "path")
    if root == "os":
        if rest == "path.join":
            return App("path", tuple(x for a in args for x in L.flat_path(ip, a, st)), "path")
        if rest in ("getcwd",):
            return App("path", (Const("."),), "path")
        if rest == "fspath":
            return args[0]
        B.log_call(ip, name, args, kw, fr, st, node)
        if rest.startswith("path.is") or rest == "path.exists":
            return Sym("os%d" % next(L.st_ids()), "bool")
        if rest in ("makedirs", "mkdir"):
            return NONE
        return Opaque(name)
    if root == "mkl":
        d = st.locals.setdefault("ext:mkl", {})
        if rest == "set_num_threads":
            st.effects = st.effects + (("ext:mkl.threads", L.freeze(ip, args[0], st), ip.where(node, fr)),)
            d["<threads>"] = args[0]
            return NONE
        if rest == "get_max_threads":
            return d.get("<threads>", Sym("mkl.threads@entry", "int"))
    if root == "enum":
        if rest == "auto":
            return App("auto", (Const(next(L.st_ids())),), "int")
    if root == "warnings":
        return NONE
    if root in ("time",):
        return Opaque(name, "float") if rest in ("time", "perf_counter") else Opaque(name, "str")
    if root == "logging":
        return App("logger", (Const(name),)) if rest == "getLogger" else Opaque(name)
    if root == "numbers":
        return Opaque(name)
    if root == "contextlib":
        if rest == "suppress":
            raise Undecided("contextlib.suppress")
        return Opaque(name)
    if root == "bisect" and len(args) == 2:
        el = B.elems(ip, args[0], fr, st, node)
        if el is not None:
            acc = Const(0)
            for x in el:
                c = L.rich_compare(ip, "lt" if "left" in rest else "le", x, args[1], fr, st, node)
                acc = add(acc, as01(L.truth(ip, c, fr, st, node)))
            return acc
    if root == "sys" and rest == "exit":
        ip.raise_now("SystemExit", fr, st, node)
    B.log_call(ip, name, args, kw, fr, st, node)
    if root in ("matplotlib", "mpl_toolkits", "sys", "logging", "traceback", "argparse", "platform"):
        return Opaque(name)
    fa = tuple(L.freeze(ip, a, st) for a in args) + kwpairs(ip, kw, st, L)
    if any(has_opaque(a) for a in fa):
        return Opaque(name)
    return App("call:" + name, fa)


def copy_val(ip, v, deep, fr, st, node):
    B, L = _m()
    r = st.heap[v.id]
    if isinstance(r, ArrRec):
        return B.arr_copy(ip, v, fr, st)
    n = r.copy()
    n.owner = "fresh"
    if deep:
        f = lambda x: copy_val(ip, x, True, fr, st, node) if isinstance(x, Ref) else Tup(f(y) for y in x.items) if isinstance(x, Tup) else x
        if isinstance(n, ListRec) and n.elems is not None:
            n.elems = tuple(f(x) for x in n.elems)
        elif isinstance(n, DictRec) and n.items is not None:
            n.items = tuple((f(k), f(x)) for k, x in n.items)
        elif isinstance(n, ObjRec):
            n.fields = {k: f(x) for k, x in n.fields.items()}
    return st.new(n)


# ============================================================================ itertools / operator / math
def call_itertools(ip, name, args, kw, fr, st, node):
    B, L = _m()
    if name == "count":
        return App("count", (args[0] if args else Const(0), args[1] if len(args) > 1 else Const(1)), "seq")
    if name == "cycle" and len(args) == 1:
        el = B.elems(ip, args[0], fr, st, node)
        if el:
            return App("cycle", tuple(el), "seq")
        raise Undecided("itertools.cycle")
    if name == "islice" and isinstance(args[0], App) and args[0].op in ("count", "cycle") and len(args) > 1 and all(isinstance(x, Const) for x in args[1:]):
        ks = [x.v for x in args[1:]]
        lo, hi, step = (0, ks[0], 1) if len(ks) == 1 else (ks[0] or 0, ks[1], (ks[2] if len(ks) > 2 else None) or 1)
        if hi is not None and hi - lo < 100000:
            return B.mklist(st, [B.nth(args[0], i) for i in range(lo, hi, step)], "iter")
    if name == "repeat":
        if len(args) > 1 and isinstance(args[1], Const):
            return B.mklist(st, [args[0]] * args[1].v, "iter")
        return Opaque("repeat")
    if name == "starmap":
        el = B.elems(ip, args[1], fr, st, node)
        if el is None:
            return B.unk_iter(st, "starmap", Opaque("starmap"))
        out = []
        for x in el:
            xs = B.elems(ip, x, fr, st, node)
            if xs is None:
                return B.unk_iter(st, "starmap", Opaque("starmap"))
            out.append(ip.call(args[0], xs, {}, fr, st, node))
        return B.mklist(st, out, "iter")
    if name == "chain.from_iterable":
        el = B.elems(ip, args[0], fr, st, node)
        if el is None:
            return B.unk_iter(st, "chain", L.freeze(ip, args[0], st))
        return call_itertools(ip, "chain", el, kw, fr, st, node)
    rep = kw.get("repeat", Const(1)) if name == "product" else Const(1)
    els = []
    take = args[:1] if name in ("combinations", "permutations", "combinations_with_replacement", "islice", "accumulate", "groupby", "tee", "pairwise") else args
    if name in ("takewhile", "dropwhile", "filterfalse", "compress"):
        el = B.elems(ip, args[0 if name == "compress" else 1], fr, st, node)
        sel = B.elems(ip, args[1], fr, st, node) if name == "compress" else el
        if el is None or sel is None:
            return B.unk_iter(st, name, Opaque(name))
        if name == "compress":
            ts = [st.decide(L.truth(ip, x, fr, st, node)) for x in sel]
            el = list(el)[:len(ts)]
        else:
            ts = [st.decide(L.truth(ip, x if args[0] == NONE else ip.call(args[0], [x], {}, fr, st, node), fr, st, node)) for x in el]
        if None in ts:
            raise Undecided("itertools." + name)
        n = next((i for i, t in enumerate(ts) if not t), len(ts))
        out = {"takewhile": lambda: list(el)[:n], "dropwhile": lambda: list(el)[n:], "filterfalse": lambda: [x for x, t in zip(el, ts) if not t],
               "compress": lambda: [x for x, t in zip(el, ts) if t]}[name]()
        return B.mklist(st, out, "iter")
    for a in take:
        if isinstance(a, App) and a.op == "count" and name == "islice":
            els.append(None)
            continue
        els.append(B.elems(ip, a, fr, st, node))
    if any(e is None for e in els):
        fz = tuple(L.freeze(ip, a, st) for a in args) + kwpairs(ip, kw, st, L)
        return B.unk_iter(st, name, *fz)
    if name == "chain":
        return B.mklist(st, [x for e in els for x in e], "iter")
    if name == "product":
        if not isinstance(rep, Const):
            fz = tuple(L.freeze(ip, a, st) for a in args) + (rep,)
            return B.unk_iter(st, "product", *fz)
        n = 1
        for e in els:
            n *= max(len(e), 1)
        if n ** max(rep.v, 1) > 100000:
            raise Undecided("large product")
        return B.mklist(st, [Tup(t) for t in itertools.product(*els, repeat=rep.v)], "iter")
    if name in ("combinations", "permutations", "combinations_with_replacement"):
        k = args[1] if len(args) > 1 else kw.get("r", Const(len(els[0])))
        if not isinstance(k, Const):
            return B.unk_iter(st, name, L.freeze(ip, args[0], st), k)
        if k.v < 0:
            ip.raise_now("ValueError", fr, st, node)
        return B.mklist(st, [Tup(t) for t in getattr(itertools, name)(els[0], k.v)], "iter")
    if name == "islice":
        if not all(isinstance(a, Const) for a in args[1:]):
            return B.unk_iter(st, "islice", Opaque("islice"))
        return B.mklist(st, list(itertools.islice(els[0], *[a.v for a in args[1:]])), "iter")
    if name == "pairwise":
        return B.mklist(st, [Tup(t) for t in zip(els[0], els[0][1:])], "iter")
    if name == "zip_longest":
        return B.mklist(st, [Tup(t) for t in itertools.zip_longest(*els, fillvalue=kw.get("fillvalue", NONE))], "iter")
    if name == "accumulate":
        out = []
        acc = kw.get("initial")
        f = args[1] if len(args) > 1 else kw.get("func")
        if acc is not None and acc != NONE:
            out.append(acc)
        else:
            acc = None
        for x in els[0]:
            acc = x if acc is None else (ip.call(f, [acc, x], {}, fr, st, node) if f is not None and f != NONE else L.binop(ip, "Add", acc, x, fr, st, node))
            out.append(acc)
        return B.mklist(st, out, "iter")
    if name == "tee":
        n = args[1].v if len(args) > 1 and isinstance(args[1], Const) else 2
        return Tup(B.mklist(st, list(els[0]), "iter") for _ in range(n))
    if name == "groupby":
        key = args[1] if len(args) > 1 else kw.get("key", NONE)
        out, last = [], None
        for x in els[0]:
            k = x if key == NONE else ip.call(key, [x], {}, fr, st, node)
            same = None if last is None else st.decide(L.truth(ip, L.rich_compare(ip, "eq", last, k, fr, st, node), fr, st, node))
            if last is not None and same is None:
                raise Undecided("itertools.groupby")
            if same:
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
                last = k
        return B.mklist(st, [Tup((k, B.mklist(st, xs, "iter"))) for k, xs in out], "iter")
    raise Undecided("itertools." + name)


OPER = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow", "lshift": "LShift", "rshift": "RShift",
        "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor", "matmul": "MatMult"}


def call_operator(ip, name, args, kw, fr, st, node):
    B, L = _m()
    if name in OPER:
        return L.binop(ip, OPER[name], args[0], args[1], fr, st, node)
    if name in ("lt", "le", "gt", "ge", "eq", "ne"):
        return L.rich_compare(ip, name, args[0], args[1], fr, st, node)
    if name == "getitem":
        return L.getitem(ip, args[0], args[1], fr, st, node)
    if name == "setitem":
        L.setitem(ip, args[0], args[1], args[2], fr, st, node)
        return NONE
    if name == "delitem":
        L.delitem(ip, args[0], args[1], fr, st, node)
        return NONE
    if name[0] == "i" and name[1:].rstrip("_") in [k.rstrip("_") for k in OPER] and len(args) == 2:
        return ip.inplace(next(v for k, v in OPER.items() if k.rstrip("_") == name[1:].rstrip("_")), args[0], args[1], fr, st, node)
    if name == "itemgetter":
        return App("itemgetter", tuple(args))
    if name == "attrgetter":
        return App("attrgetter", tuple(args))
    if name == "methodcaller":
        return App("methodcaller", tuple(args))
    if name in ("neg",):
        return L.unop(ip, "USub", args[0], fr, st, node)
    if name == "not_":
        return b_not(L.truth(ip, args[0], fr, st, node))
    if name == "truth":
        return L.truth(ip, args[0], fr, st, node)
    if name == "contains":
        return L.contains(ip, args[0], args[1], fr, st, node)
    if name == "is_":
        return L.identity_eq(ip, args[0], args[1], st)
    if name == "is_not":
        return b_not(L.identity_eq(ip, args[0], args[1], st))
    if name == "index" and isinstance(args[0], Const) and isinstance(args[0].v, int):
        return Const(int(args[0].v))
    if name in ("abs", "pos", "invert", "inv"):
        return B.do_abs(ip, args[0], fr, st, node) if name == "abs" else L.unop(ip, "UAdd" if name == "pos" else "Invert", args[0], fr, st, node)
    raise Undecided("operator." + name)


def call_math(ip, name, fn, args, kw, fr, st, node):
    B, L = _m()
    a = args[0] if args else None
    if fn == "prod":
        el = B.elems(ip, a, fr, st, node)
        if el is None:
            e = L.freeze(ip, a, st)
            return Opaque("prod", "num") if has_opaque(e) else App("prod", (e, kw.get("start", Const(1))), "num")
        acc = kw.get("start", Const(1))
        for x in el:
            acc = L.binop(ip, "Mult", acc, x, fr, st, node)
        return acc
    if all(isinstance(x, Const) for x in args) and hasattr(math, fn) and not kw:
        try:
            return Const(getattr(math, fn)(*[x.v for x in args]))
        except (ValueError, OverflowError, ZeroDivisionError) as e:
            ip.raise_now(type(e).__name__, fr, st, node)
        except TypeError:
            ip.raise_now("TypeError", fr, st, node)
    if fn not in ("dist", "fsum") and (isinstance(a, Tup) or tyof(a) in ("foreign", "str") or isinstance(a, Const) and isinstance(a.v, str)):
        ip.raise_now("TypeError", fr, st, node)
    if any(isinstance(x, Opaque) for x in args):
        return Opaque(name, "float")
    if fn in ("sin", "cos", "tan", "sqrt", "exp", "acos", "asin", "atan") and is_num(a):
        return func1(fn, a)
    if fn == "radians":
        return scale(a, math.pi / 180)
    if fn == "degrees":
        return scale(a, 180 / math.pi)
    if fn == "fabs":
        return func1("abs", a)
    if fn in ("floor", "ceil", "trunc") and is_num(a):
        return App(fn, (a,), "int") if tyof(a) != "int" else a
    if fn == "atan2":
        return App("atan2", (a, args[1]), "float")
    if fn == "hypot":
        acc = Const(0)
        for x in args:
            acc = add(acc, mul(x, x))
        return func1("sqrt", acc)
    if fn == "pow":
        return power(a, args[1])
    if fn == "dist" and len(args) == 2:
        x, y = (B.elems(ip, v, fr, st, node) for v in args)
        if x is not None and y is not None:
            if len(x) != len(y):
                ip.raise_now("ValueError", fr, st, node)
            acc = Const(0)
            for p, q in zip(x, y):
                d = L.binop(ip, "Sub", p, q, fr, st, node)
                acc = add(acc, mul(d, d))
            return func1("sqrt", acc)
    if fn == "fsum" and len(args) == 1:
        el = B.elems(ip, a, fr, st, node)
        if el is not None:
            if all(isinstance(x, Const) for x in el):
                return Const(math.fsum(x.v for x in el))
            acc = Const(0.0)
            for x in el:
                acc = L.binop(ip, "Add", acc, x, fr, st, node)
            return acc
    ty = "int" if fn in ("factorial", "comb", "perm", "gcd", "isqrt", "lcm") else "bool" if fn.startswith("is") else "float"
    return App("math." + fn, tuple(L.freeze(ip, x, st) for x in args), ty)


# ============================================================================ numpy
def aslist(x):
    return [x]


def dims(ip, v, fr, st, node):
    """shape argument -> tuple of Val"""
    B, L = _m()
    bad = lambda x: isinstance(x, Const) and not isinstance(x.v, (int, bool)) or isinstance(x, Tup) or isinstance(x, Ref) and isinstance(st.heap.get(x.id), (ListRec, DictRec, ObjRec))
    if isinstance(v, Const) and not isinstance(v.v, int) and v.v is not None:
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(v, Tup):
        if any(bad(x) for x in v.items):
            ip.raise_now("TypeError", fr, st, node)
        return v.items
    if isinstance(v, Ref):
        el = B.elems(ip, v, fr, st, node)
        if el is not None and any(bad(x) for x in el) and isinstance(st.heap.get(v.id), ListRec):
            ip.raise_now("TypeError", fr, st, node)
        return None if el is None else tuple(el)
    if is_num(v):
        return (v,)
    return None


def filled(ip, shp, val, kind, fr, st, node):
    B, L = _m()
    d = dims(ip, shp, fr, st, node)
    if d is not None and all(isinstance(x, Const) and isinstance(x.v, int) for x in d):
        n = L.prod([x.v for x in d])
        if n <= 4096:
            return L.new_arr(st, [x.v for x in d], [val] * n)
    if d is None:
        s = L.freeze(ip, shp, st)
        d = (s,)
    d = tuple(L.freeze(ip, x, st) for x in d)
    sh = Tup(d) if len(d) != 1 else d[0]
    if has_opaque(sh):
        return L.new_arr(st, expr=Opaque(kind, "ndarray"))
    return L.new_arr(st, expr=App(kind, (sh,) if kind != "full" else (sh, L.freeze(ip, val, st)), "ndarray"))


def to_arr(ip, v, fr, st, node, copy=True):
    B, L = _m()
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ArrRec):
        if not copy:
            return v
        return B.arr_copy(ip, v, fr, st)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ListRec) and st.rec(v).kind == "iter":
        return L.new_arr(st, expr=Opaque("object array", "ndarray"))
    if tyof(v) == "ndarray" and not isinstance(v, Ref):
        if not copy:
            return v
        return L.new_arr(st, expr=v)
    g = L.arr_get(ip, st, v)
    if g is not None:
        return L.new_arr(st, g[0], g[1])
    if isinstance(v, (Tup,)) or isinstance(v, Ref):
        el = B.elems(ip, v, fr, st, node)
        if el is not None:
            # rows that are symbolic arrays
            parts = [L.freeze(ip, x, st) for x in el]
            if any(has_opaque(p) for p in parts):
                return L.new_arr(st, shape=None, expr=Opaque("array", "ndarray"))
            return L.new_arr(st, shape=None, expr=App("array", (App("list", tuple(parts), "list"),), "ndarray"))
    e = L.freeze(ip, v, st)
    return L.new_arr(st, expr=Opaque("array", "ndarray") if has_opaque(e) else App("array", (e,), "ndarray"))


def int_range(dn):
    import re
    m = re.match(r"(u?)int(8|16|32|64)?$", dn)
    if not m:
        return -float("inf"), float("inf")
    n = int(m.group(2) or 64)
    return (0, 2 ** n - 1) if m.group(1) else (-2 ** (n - 1), 2 ** (n - 1) - 1)


def known(ip, v, st):
    B, L = _m()
    return L.arr_get(ip, st, v)


def is_arr_val(v, st):
    return isinstance(v, Ref) and isinstance(st.heap.get(v.id), (ArrRec, ListRec, DictRec))


def call_np(ip, name, fn, args, kw, fr, st, node):
    B, L = _m()
    a = args[0] if args else None
    dt = kw.get("dtype")
    g = known(ip, a, st) if a is not None else None
    if "out" in kw and kw["out"] != NONE:
        o = kw.pop("out")
        v = call_np(ip, name, fn, args, kw, fr, st, node)
        if isinstance(o, Ref):
            L.overwrite(ip, o, v, fr, st, node)
        return o
    from . import nd as nd_
    if fn in nd_.FIRST:
        v = nd_.try_np(ip, fn, args, kw, fr, st, node)
        if v is not None:
            return v
    if fn == "where" and len(args) == 1 and not kw:
        return call_np(ip, "numpy.nonzero", "nonzero", args, kw, fr, st, node)
    if fn in ("finfo", "iinfo") and len(args) == 1 and not kw:
        t = a.name.split(".")[-1] if isinstance(a, (ExtV, BltV)) else a.v if isinstance(a, Const) and isinstance(a.v, str) else None
        if isinstance(a, Const) and not isinstance(a.v, (str, type(None))):
            t = type(a.v).__name__
        t = {"float": "float64", "int": "int64", "float_": "float64", "double": "float64", "complex": "float64", "complex128": "float64", "complex64": "float32", "int_": "int64", "intp": "int64"}.get(t, t)
        if t in (B.FINFO if fn == "finfo" else ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")):
            return App("typeinfo", (Const(fn), Const(t)), "typeinfo")
    if fn in SCALAR_TYPES:
        if a is None:
            return Const({"int": 0, "float": 0.0, "complex": 0j, "bool": False}[SCALAR_TYPES[fn]])
        if isinstance(a, Ref) or isinstance(a, Tup):
            return to_arr(ip, a, fr, st, node)
        return {"int": B.to_int, "float": B.to_float, "complex": lambda *x: B.to_float(*x, cx=True), "bool": lambda ip, a, fr, st, node: L.truth(ip, a, fr, st, node)}[SCALAR_TYPES[fn]](ip, a, fr, st, node)
    if fn in ("array", "asarray", "ascontiguousarray", "asanyarray", "copy", "atleast_1d", "asfarray", "require"):
        cp = fn in ("array", "copy")
        c = kw.get("copy")
        if c is None and len(args) > 2 and fn == "array":
            c = args[2]
        if fn == "array" and c is not None and isinstance(c, Const):
            cp = bool(c.v)
        r = to_arr(ip, a, fr, st, node, cp)
        nd = kw.get("ndmin")
        if nd is not None and isinstance(nd, Const) and known(ip, r, st) is not None:
            gg = known(ip, r, st)
            if len(gg[0]) < nd.v:
                r = L.new_arr(st, (1,) * (nd.v - len(gg[0])) + tuple(gg[0]), gg[1])
        d = dt if dt is not None else (args[1] if len(args) > 1 else None)
        if d is not None and isinstance(r, Ref) and isinstance(st.heap.get(r.id), ArrRec):
            if r is a:
                k = L.dtype_kind(d)
                if k is None or k == L.arr_kind(st, a) or (k == "f64" and L.arr_kind(st, a) is None):
                    return r
                r = B.arr_copy(ip, r, fr, st)
            L.typed(ip, r, d, fr, st, node, not is_arr_val(a, st) or isinstance(st.heap.get(a.id), ListRec))
        elif d is None and isinstance(r, Ref) and r is not a and isinstance(st.heap.get(r.id), ArrRec):
            x = st.heap[r.id]
            if x.dtype is None and x.elems and not L.is_arr(st, a) and all(isinstance(e, Const) and type(e.v) is int for e in x.elems):
                x = x.copy()
                x.dtype = App("inferred_dtype", (Const("int64"),))
                st.heap[r.id] = x
        return r
    if fn in ("zeros", "empty", "ones", "full"):
        shp = a if a is not None else kw.get("shape")
        if dt is None and len(args) > (2 if fn == "full" else 1):
            dt = args[2 if fn == "full" else 1]
        if fn == "empty":
            v = empty(ip, shp, fr, st, node)
        else:
            v = filled(ip, shp, (args[1] if len(args) > 1 else kw["fill_value"]) if fn == "full" else Const(0.0 if fn == "zeros" else 1.0), fn, fr, st, node)
        if dt in (None, NONE):
            dt = None if fn == "full" else ExtV("numpy.float64")
        return L.typed(ip, v, dt, fr, st, node, fn == "full") if dt is not None else v
    if fn in ("zeros_like", "ones_like", "empty_like", "full_like"):
        if dt in (None, NONE):
            rr = st.heap.get(L.root_id(st, a.id)) if isinstance(a, Ref) else None
            dt = rr.dtype if isinstance(rr, ArrRec) else None
        if g is not None:
            v = {"zeros_like": Const(0.0), "ones_like": Const(1.0), "full_like": (args[1] if len(args) > 1 else kw.get("fill_value", NONE))}.get(fn)
            v = L.new_arr(st, g[0], [Opaque("uninitialised", "num") for _ in g[1]] if v is None else [v] * len(g[1]))
            return L.typed(ip, v, dt, fr, st, node) if dt is not None else v
        e = L.arr_expr(ip, st, a)
        k = {"zeros_like": "zeros", "ones_like": "ones"}.get(fn)
        if k is None or has_opaque(e):
            return L.new_arr(st, expr=Opaque(fn, "ndarray"))
        return L.new_arr(st, expr=App(k, (B.shape_of(e),), "ndarray"))
    if fn in ("identity", "eye"):
        if isinstance(a, Const) and len(args) == 1 and a.v <= DENSE and not kw.get("k"):
            n = a.v
            v = L.new_arr(st, (n, n), [Const(1.0 if i == j else 0.0) for i in range(n) for j in range(n)])
            return L.typed(ip, v, dt if dt not in (None, NONE) else ExtV("numpy.float64"), fr, st, node)
        if len(args) > 1 or set(kw) - {"dtype"}:
            return generic(ip, name, args, kw, fr, st, node)
        return L.new_arr(st, expr=App("identity", (L.freeze(ip, a, st),), "ndarray"))
    if fn in UFUNC1:
        if isinstance(a, Tup) or L.is_arr(st, a) or isinstance(a, Ref):
            return B.map_arr(ip, a, UNAME.get(fn, fn), fr, st)
        return num1(ip, UNAME.get(fn, fn), a, fr, st, node)
    if fn in ("abs", "absolute", "fabs"):
        if isinstance(a, (Tup, Ref)):
            return B.map_arr(ip, a, "abs", fr, st)
        return B.do_abs(ip, a, fr, st, node)
    if fn in ("conj", "conjugate"):
        if g is not None:
            return L.scalar_or_arr(st, g[0], [Opaque("conj", tyof(x)) if isinstance(x, Opaque) else conj(x) for x in g[1]])
        e = L.arr_expr(ip, st, a)
        return L.new_arr(st, expr=Opaque("conj", "ndarray") if isinstance(e, Opaque) else conj(e)) if L.is_arr(st, a) else (Opaque("conj", "num") if isinstance(e, Opaque) else conj(e))
    if fn in ("real", "imag"):
        return ip.getattr(a, fn, fr, st, node)
    if fn in ("deg2rad", "radians"):
        return L.binop(ip, "Mult", a, Const(math.pi / 180), fr, st, node)
    if fn in ("rad2deg", "degrees"):
        return L.binop(ip, "Mult", a, Const(180 / math.pi), fr, st, node)
    if fn == "square":
        return L.binop(ip, "Mult", a, a, fr, st, node)
    if fn == "negative":
        return L.unop(ip, "USub", a, fr, st, node)
    if fn in BINF:
        return L.binop(ip, BINF[fn], a, args[1], fr, st, node)
    if fn in CMPF:
        return L.rich_compare(ip, CMPF[fn], a, args[1], fr, st, node)
    if fn in ("logical_and", "logical_or", "logical_not", "logical_xor", "isfinite", "isnan", "isreal", "iscomplex") and g is not None:
        gs = [known(ip, x, st) for x in args]
        if all(x is not None and x[0] == () for x in gs):
            ts = [L.truth(ip, x[1][0], fr, st, node) for x in gs]
            if fn == "logical_and":
                return b_and(*ts)
            if fn == "logical_or":
                return b_or(*ts)
            if fn == "logical_not":
                return b_not(ts[0])
    if fn in ("iscomplexobj", "isrealobj") and g is not None:
        def cplx(x):
            if isinstance(x, Const):
                return isinstance(x.v, complex)
            if tyof(x) == "complex" or isinstance(x, Poly) and any(isinstance(k, complex) for _, k in x.terms):
                return True
            return False if tyof(x) in ("int", "float", "bool") else None
        r = [cplx(x) for x in g[1]]
        if True in r or None not in r:
            return Const((True in r) == (fn == "iscomplexobj"))
        return Opaque(fn, "bool")
    if fn in ("hypot",):
        s = L.binop(ip, "Add", L.binop(ip, "Mult", a, a, fr, st, node), L.binop(ip, "Mult", args[1], args[1], fr, st, node), fr, st, node)
        return call_np(ip, "numpy.sqrt", "sqrt", [s], {}, fr, st, node)
    if fn in ("arctan2",):
        if all(isinstance(x, Const) for x in args):
            return Const(math.atan2(a.v, args[1].v))
        if all(is_num(x) and not isinstance(x, (Ref, Opaque)) for x in args):
            return App("atan2", tuple(args), "float")
        return generic(ip, name, args, kw, fr, st, node)
    if fn in ("dot", "matmul"):
        return L.matmul(ip, a, args[1], fr, st, node)
    if fn in ("vdot",):
        return L.inner(ip, a, args[1], True, fr, st, node)
    if fn in ("inner",):
        ga, gb = g, known(ip, args[1], st)
        if ga is not None and gb is not None and (len(ga[0]) != 1 or len(gb[0]) != 1):
            return L.matmul(ip, a, B.arr_T(ip, args[1], st), fr, st, node) if ga[0] and gb[0] else L.binop(ip, "Mult", a, args[1], fr, st, node)
        return L.inner(ip, a, args[1], False, fr, st, node)
    if fn == "linalg.multi_dot":
        el = B.elems(ip, a, fr, st, node)
        if el is None:
            return generic(ip, name, args, kw, fr, st, node)
        acc = el[0]
        for x in el[1:]:
            acc = L.matmul(ip, acc, x, fr, st, node)
        return acc
    if fn == "outer":
        gb = known(ip, args[1], st)
        if g is not None and gb is not None:
            return L.new_arr(st, (len(g[1]), len(gb[1])), [mul(x, y) for x in g[1] for y in gb[1]])
        return generic(ip, name, args, kw, fr, st, node)
    if fn == "kron":
        return kron(ip, a, args[1], "ndarray", fr, st, node)
    if fn == "cross":
        gb = known(ip, args[1], st)
        if g is not None and gb is not None and g[0] == (3,) == gb[0]:
            x, y = g[1], gb[1]
            return L.new_arr(st, (3,), [sub(mul(x[(i + 1) % 3], y[(i + 2) % 3]), mul(x[(i + 2) % 3], y[(i + 1) % 3])) for i in range(3)])
        if g is not None and gb is not None and g[0] == (2,) == gb[0]:
            x, y = g[1], gb[1]
            return sub(mul(x[0], y[1]), mul(x[1], y[0]))
        return generic(ip, name, args, kw, fr, st, node)
    if fn == "linalg.norm":
        if g is not None and len(g[0]) in (1, 2) and len(args) == 1 and not kw:
            return norm(g[1])       # a matrix without axis: Frobenius norm
        if g is not None and len(g[0]) == 2 and kw.get("axis") in (Const(1), Const(-1)):
            n, m = g[0]
            return L.new_arr(st, (n,), [norm(g[1][i * m:(i + 1) * m]) for i in range(n)])
        e = L.arr_expr(ip, st, a)
        if len(args) == 1 and not kw:
            return Opaque("norm", "float") if isinstance(e, Opaque) else App("norm", (e,), "float")
        return generic(ip, name, args, kw, fr, st, node)
    if fn == "linalg.det":
        if g is not None and len(g[0]) == 2 and g[0][0] == g[0][1] <= 4:
            return det(g[1], g[0][0])
        e = L.arr_expr(ip, st, a)
        return Opaque("det", "num") if isinstance(e, Opaque) else App("det", (e,), "num")
    if fn == "linalg.inv":
        if g is not None and len(g[0]) == 2 and g[0][0] == g[0][1] <= 4 and not has_opaque(Tup(g[1])):
            return L.new_arr(st, g[0], inv_elems(g[1], g[0][0], fr, st, ip, node))
        e = L.arr_expr(ip, st, a)
        return L.new_arr(st, expr=Opaque("inv", "ndarray") if isinstance(e, Opaque) else L.inv_expr(e))
    if fn == "linalg.solve":
        b = args[1]
        if g is not None and g[0][0] <= 3 and not has_opaque(Tup(g[1])) and known(ip, b, st) is not None:
            iv = L.new_arr(st, g[0], inv_elems(g[1], g[0][0], fr, st, ip, node))
            return L.matmul(ip, iv, b, fr, st, node)
        e = L.arr_expr(ip, st, a)
        eb = L.arr_expr(ip, st, b)
        if isinstance(e, Opaque) or isinstance(eb, Opaque):
            return L.new_arr(st, expr=Opaque("solve", "ndarray"))
        return L.new_arr(st, expr=L.mm_expr(L.inv_expr(e), eb))
    if fn in ("linalg.eigh", "linalg.eig"):
        e = L.arr_expr(ip, st, a)
        if has_opaque(e):
            return Tup((L.new_arr(st, expr=Opaque("eigenvalues", "ndarray")), L.new_arr(st, expr=Opaque("eigenvectors", "ndarray"))))
        return Tup((L.new_arr(st, expr=App("eigvals", (e,), "ndarray")), L.new_arr(st, expr=App("eigvecs", (e,), "ndarray"))))
    if fn in ("sum", "prod", "any", "all", "mean", "trace", "max", "min", "amax", "amin"):
        return reduce_np(ip, name, fn, args, kw, fr, st, node, g)
    if fn in ("concatenate", "hstack", "vstack", "stack", "append", "r_", "column_stack"):
        return stack_np(ip, name, fn, args, kw, fr, st, node)
    if fn in ("transpose", "T"):
        if len(args) == 1 and not kw:
            return B.arr_T(ip, a, st)
    if fn == "reshape":
        d = dims(ip, args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape")), fr, st, node)
        if g is not None and d is not None and all(isinstance(x, Const) for x in d):
            ds = [x.v for x in d]
            if -1 in ds:
                k = L.prod([x for x in ds if x != -1])
                ds[ds.index(-1)] = len(g[1]) // k if k else 0
            if L.prod(ds) == len(g[1]):
                if isinstance(a, Ref) and isinstance(st.heap[a.id], ArrRec):
                    base, sel = B._flatview(st, a)
                    return st.new(ArrRec(shape=tuple(ds), base=base, sel=tuple(sel), owner="view"))
                return L.new_arr(st, ds, g[1])
            ip.raise_now("ValueError", fr, st, node)
        v = generic(ip, name, args, kw, fr, st, node)
        if isinstance(a, Ref) and isinstance(st.heap[a.id], ArrRec):
            x = st.rec(v).copy()
            x.base, x.owner = a.id, "view"
            st.heap[v.id] = x
        return v
    if fn in ("ravel",):
        return B.arr_methods(ip, a, st.rec(a), "ravel", [], {}, fr, st, node) if isinstance(a, Ref) and isinstance(st.rec(a), ArrRec) else generic(ip, name, args, kw, fr, st, node)
    if fn == "arange":
        if all(isinstance(x, Const) for x in args) and not [k for k in kw if k != "dtype"]:
            vs = [x.v for x in args]
            if all(isinstance(x, int) for x in vs):
                r = range(*vs)
                if len(r) <= 4096:
                    return L.new_arr(st, (len(r),), [Const(i) for i in r])
            else:
                lo, hi, step = (0, vs[0], 1) if len(vs) == 1 else (vs[0], vs[1], 1) if len(vs) == 2 else vs
                n = max(0, math.ceil((hi - lo) / step))
                if n <= 4096:
                    return L.new_arr(st, (n,), [Const(lo + i * step) for i in range(n)])
        return generic(ip, name, args, {k: v for k, v in kw.items() if k != "dtype"}, fr, st, node)
    if fn == "linspace":
        n = args[2] if len(args) > 2 else kw.get("num", Const(50))
        ep = kw.get("endpoint", TRUE)
        ga, gb = g, known(ip, args[1], st)
        if isinstance(n, Const) and isinstance(ep, Const) and ga is not None and gb is not None and ga[0] == gb[0] and n.v <= 4096:
            N = n.v
            el = []
            for i in range(N):
                t = i / ((N - 1 if ep.v else N) or 1)
                for x, y in zip(ga[1], gb[1]):
                    el.append(add(x, scale(sub(y, x), t)) if t else x)
            return L.new_arr(st, (N,) + tuple(ga[0]), el)
        return generic(ip, name, args, kw, fr, st, node)
    if fn in ("around", "round", "round_", "rint"):
        nd = args[1] if len(args) > 1 and fn != "rint" else kw.get("decimals", Const(0))
        if is_arr_val(nd, st) or isinstance(nd, Const) and not isinstance(nd.v, int) or isinstance(nd, (Tup, FuncV)) or tyof(nd) in ("float", "str", "foreign"):
            ip.raise_now("TypeError", fr, st, node)
        if g is not None and isinstance(nd, Const) and not has_opaque(Tup(g[1])):
            return L.scalar_or_arr(st, g[0], [Const(round(x.v, nd.v)) if isinstance(x, Const) else App("rint", (x,), "float") if nd.v == 0 else App("round", (x, nd), "float") for x in g[1]])
        return generic(ip, name, args, kw, fr, st, node)
    if fn == "diag":
        k = args[1] if len(args) > 1 else kw.get("k", Const(0))
        if g is not None and isinstance(k, Const) and len(g[0]) == 1:
            n = g[0][0] + abs(k.v)
            el = [Const(0.0)] * (n * n)
            for i, x in enumerate(g[1]):
                r_, c_ = (i, i + k.v) if k.v >= 0 else (i - k.v, i)
                el[r_ * n + c_] = x
            return L.new_arr(st, (n, n), el)
        if g is not None and len(g[0]) == 2 and k == Const(0):
            n = min(g[0])
            return L.new_arr(st, (n,), [g[1][i * g[0][1] + i] for i in range(n)])
        kk = (k,) if k != Const(0) else ()
        e = L.freeze(ip, a, st)
        return L.new_arr(st, expr=Opaque("diag", "ndarray") if has_opaque(e) else App("np.diag", (e,) + tuple(kk), "ndarray"))
    if fn in ("array_equal", "allclose", "isclose"):
        if len(args) == 2 and fn == "array_equal":
            v = L.rich_compare(ip, "eq", a, args[1], fr, st, node)
            gv = known(ip, v, st)
            if gv is not None:
                r = TRUE
                for x in gv[1]:
                    r = b_and(r, L.truth(ip, x, fr, st, node))
                return r
        ga, gb = g, known(ip, args[1], st)
        if ga is not None and gb is not None and all(isinstance(x, Const) for x in ga[1] + gb[1]):
            try:
                _, xa, xb = L.broadcast(ga, gb)
                rt = kw.get("rtol", Const(1e-5)).v
                at = kw.get("atol", Const(1e-8)).v
                rs = [abs(x.v - y.v) <= at + rt * abs(y.v) for x, y in zip(xa, xb)]
                if fn == "allclose":
                    return Const(all(rs))
                if fn == "isclose" and len(rs) == 1:
                    return Const(rs[0])
            except AttributeError:
                pass
        e = tuple(L.freeze(ip, x, st) for x in args) + kwpairs(ip, kw, st, L)
        if any(has_opaque(x) for x in e):
            return Sym("%s%d" % (fn, next(L.st_ids())), "bool")
        return App("np." + fn, e, "bool")
    if fn == "where" and len(args) == 3:
        gs = [known(ip, x, st) for x in args]
        if all(x is not None and x[0] == () for x in gs):
            return ite(L.truth(ip, a, fr, st, node), args[1], args[2])
        return generic(ip, name, args, kw, fr, st, node)
    if fn in ("nonzero", "flatnonzero"):
        if g is not None and len(g[0]) == 1:
            ts = [st.decide(L.truth(ip, x, fr, st, node)) for x in g[1]]
            if None not in ts:
                v = L.new_arr(st, (sum(ts),), [Const(i) for i, t in enumerate(ts) if t])
                return v if fn == "flatnonzero" else Tup((v,))
        v = generic(ip, name, args, kw, fr, st, node)
        return v if fn == "flatnonzero" else Tup((v,))
    if fn == "unique":
        return np_unique(ip, name, args, kw, fr, st, node, g)
    if fn in ("sort",):
        el = list(g[1]) if g is not None and len(g[0]) == 1 else None
        out = B.do_sort(ip, el, None, None, fr, st, node) if el is not None else None
        if out is not None:
            return L.new_arr(st, (len(out),), out)
        return generic(ip, name, args, kw, fr, st, node)
    if fn == "sort_complex":
        out = sort_complex(st, list(g[1])) if g is not None and len(g[0]) == 1 else None
        return L.new_arr(st, (len(out),), out) if out is not None else generic(ip, name, args, kw, fr, st, node)
    if fn == "searchsorted":
        ga, gb = g, known(ip, args[1], st)
        if ga is not None and gb is not None and gb[0] == () and all(isinstance(x, Const) for x in ga[1]) and isinstance(args[1], Const):
            import bisect
            return Const(bisect.bisect_left([x.v for x in ga[1]], args[1].v))
        e = tuple(L.freeze(ip, x, st) for x in args)
        if any(has_opaque(x) for x in e):
            return Opaque("searchsorted", "int")
        return App("searchsorted", e + kwpairs(ip, kw, st, L), "int")
    if fn == "cumsum" and g is not None and len(g[0]) == 1:
        acc, out = Const(0), []
        for x in g[1]:
            acc = add(acc, x)
            out.append(acc)
        return L.new_arr(st, g[0], out)
    if fn in ("fill_diagonal", "copyto", "put", "place", "random.shuffle"):
        if isinstance(a, Ref) and isinstance(st.heap.get(a.id), (ArrRec, ListRec)):
            if fn == "copyto":
                L.overwrite(ip, a, args[1], fr, st, node)
            else:
                L.overwrite(ip, a, L.new_arr(st, expr=Opaque(fn, "ndarray")), fr, st, node)
        return NONE
    if fn == "isscalar":
        if isinstance(a, (Ref, Tup)):
            return FALSE
        if is_num(a):
            return TRUE
    if fn in ("ndim", "size", "shape"):
        if isinstance(a, Ref) and isinstance(st.heap.get(a.id), ArrRec):
            return B.arr_attr(ip, a, st.rec(a), fn, fr, st, node)
        if g is not None:
            return {"ndim": Const(len(g[0])), "size": Const(len(g[1])), "shape": Tup(Const(d) for d in g[0])}[fn]
    if fn in ("insert", "delete", "tile", "repeat", "roll", "flip", "squeeze", "expand_dims", "broadcast_to", "einsum", "tensordot", "meshgrid", "argsort",
              "argmin", "argmax", "cumprod", "diff", "clip", "sign", "maximum", "minimum", "count_nonzero", "bincount", "split", "linalg.eigvalsh", "linalg.matrix_rank"):
        if fn == "insert" and g is not None and isinstance(args[1], Const) and len(args) == 3 and known(ip, args[2], st) is not None and len(g[0]) == 1:
            l = list(g[1])
            ins = known(ip, args[2], st)[1]
            l[args[1].v:args[1].v] = list(ins)
            return L.new_arr(st, (len(l),), l)
        if fn == "sign" and g is not None and g[0] == ():
            x = a
            if isinstance(x, Const):
                return Const((x.v > 0) - (x.v < 0))
            return App("sign", (x,), "num")
        if fn in ("maximum", "minimum") and g is not None and known(ip, args[1], st) is not None:
            sh, xa, xb = L.broadcast(g, known(ip, args[1], st))
            return L.scalar_or_arr(st, sh, [B.minmax(ip, fn[:3], [x, y], None, fr, st, node) for x, y in zip(xa, xb)])
        if fn in ("argmin", "argmax") and g is not None and len(g[0]) == 1 and all(isinstance(x, Const) for x in g[1]):
            vs = [x.v for x in g[1]]
            return Const(vs.index(min(vs) if fn == "argmin" else max(vs)))
        if fn in ("argmin", "argmax", "count_nonzero"):
            from . import nd
            v = nd.try_np(ip, fn, args, kw, fr, st, node)
            if v is not None:
                return v
            e = L.freeze(ip, a, st)
            return Opaque(fn, "int") if has_opaque(e) else App("np." + fn, (e,) + kwpairs(ip, kw, st, L), "int")
        return generic(ip, name, args, kw, fr, st, node)
    if fn.startswith("random"):
        return L.new_arr(st, expr=Opaque(name, "ndarray"))
    if fn in ("seterr", "set_printoptions", "errstate", "printoptions"):
        return Opaque(name)
    if fn == "issubdtype":
        return Sym("issubdtype%d" % next(L.st_ids()), "bool")
    return generic(ip, name, args, kw, fr, st, node)


def empty(ip, shp, fr, st, node):
    B, L = _m()
    d = dims(ip, shp, fr, st, node)
    if d is not None and all(isinstance(x, Const) and isinstance(x.v, int) for x in d):
        n = L.prod([x.v for x in d])
        if n <= 4096:
            return L.new_arr(st, [x.v for x in d], [Opaque("uninitialised", "num") for _ in range(n)])
    return L.new_arr(st, expr=App("empty", tuple(L.freeze(ip, x, st) for x in (d or ())) + (Const(next(L.st_ids())),), "ndarray"))


def num1(ip, fn, a, fr, st, node):
    B, L = _m()
    if isinstance(a, Const) and not isinstance(a.v, (int, float, complex)) or tyof(a) == "foreign":
        ip.raise_now("TypeError", fr, st, node)
    if isinstance(a, Opaque) or not is_num(a):
        return Opaque(fn, "float")
    if fn in ("rint", "floor", "ceil", "trunc") and not isinstance(a, Const):
        return App(fn, (a,), "float")
    return func1(fn, a)


def norm(el):
    if any(isinstance(x, Opaque) for x in el):
        return Opaque("norm", "float")
    acc = Const(0)
    for x in el:
        if isinstance(x, Const) and isinstance(x.v, complex):
            acc = add(acc, Const(x.v.real ** 2 + x.v.imag ** 2))
        else:
            acc = add(acc, mul(conj(x), x))
    return func1("sqrt", acc)


def det(el, n):
    if any(isinstance(x, Opaque) for x in el):
        return Opaque("det", "num")
    acc = Const(0)
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    s = -s
        t = Const(s)
        for i in range(n):
            t = mul(t, el[i * n + p[i]])
        acc = add(acc, t)
    return acc


def inv_elems(el, n, fr, st, ip, node):
    d = det(el, n)
    if isinstance(d, Const) and d.v == 0:
        ip.raise_now("LinAlgError", fr, st, node)
    if n == 1:
        return [inv(el[0])]
    out = []
    di = inv(d)
    for i in range(n):
        for j in range(n):
            sub_ = [el[r * n + c] for r in range(n) for c in range(n) if r != j and c != i]
            m = det(sub_, n - 1)
            out.append(mul(scale(m, (-1) ** (i + j)), di))
    return out


DENSE = 64      # identities up to this size are expanded into elements


def kron(ip, a, b, kind, fr, st, node):
    B, L = _m()
    ga, gb = known(ip, a, st), known(ip, b, st)
    if ga is not None and gb is not None and len(ga[0]) == 2 == len(gb[0]) and ga[0][0] * gb[0][0] <= max(2, 2 * DENSE):
        (n, m), (p, q) = ga[0], gb[0]
        out = []
        for i in range(n * p):
            for j in range(m * q):
                x, y = ga[1][(i // p) * m + j // q], gb[1][(i % p) * q + j % q]
                if isinstance(x, Const) and x.v == 0 or isinstance(y, Const) and y.v == 0:
                    out.append(Const(0))
                else:
                    out.append(mul(x, y))
        return L.new_arr(st, (n * p, m * q), out, kind=kind)
    ea, eb = L.freeze(ip, a, st), L.freeze(ip, b, st)
    if isinstance(ea, Opaque) or isinstance(eb, Opaque):
        return L.new_arr(st, expr=Opaque("kron", "ndarray"), kind=kind)
    return L.new_arr(st, expr=App("kron", (ea, eb), "ndarray"), kind=kind)


def reduce_np(ip, name, fn, args, kw, fr, st, node, g):
    B, L = _m()
    a = args[0]
    axis = args[1] if len(args) > 1 and fn not in ("trace",) else kw.get("axis")
    if kw.get("keepdims", FALSE) != FALSE:
        return generic(ip, name, args, kw, fr, st, node)
    if g is not None and not has_opaque(Tup(g[1])):
        sh, el = g
        if fn == "trace" and len(sh) == 2:
            acc = Const(0)
            for i in range(min(sh)):
                acc = add(acc, el[i * sh[1] + i])
            return acc

        init = kw.get("initial")

        def red(xs):
            if init is not None and fn != "mean":
                xs = [init] + list(xs)
            if fn in ("sum", "mean"):
                acc = Const(0)
                for x in xs:
                    acc = add(acc, as01(x) if is_bool(x) else x)
                return scale(acc, 1 / len(xs)) if fn == "mean" else acc
            if fn == "prod":
                acc = Const(1)
                for x in xs:
                    acc = mul(acc, x)
                return acc
            if fn in ("any", "all"):
                r = FALSE if fn == "any" else TRUE
                for x in xs:
                    c = L.truth(ip, x, fr, st, node)
                    r = b_or(r, c) if fn == "any" else b_and(r, c)
                return r
            return B.minmax(ip, fn[-3:], list(xs), None, fr, st, node)
        if axis is None or axis == NONE:
            return red(el)
        if isinstance(axis, Const) and len(sh) == 2:
            n, m = sh
            ax = axis.v % 2
            if ax == 0:
                return L.new_arr(st, (m,), [red([el[i * m + j] for i in range(n)]) for j in range(m)])
            return L.new_arr(st, (n,), [red(el[i * m:(i + 1) * m]) for i in range(n)])
        if isinstance(axis, Const) and len(sh) == 1:
            return red(el)
    e = L.freeze(ip, a, st)
    ty = "bool" if fn in ("any", "all") else "num"
    if axis is not None and axis != NONE:
        return generic(ip, name, args, kw, fr, st, node)
    if has_opaque(e):
        return Sym("np.%s%d" % (fn, next(L.st_ids())), "bool") if ty == "bool" else Opaque(fn, "num")
    return App("np." + fn, (e,), ty)


def stack_np(ip, name, fn, args, kw, fr, st, node):
    B, L = _m()
    if fn == "append":
        parts = list(args[:2])
    else:
        parts = B.elems(ip, args[0], fr, st, node)
    axis = kw.get("axis", args[1] if len(args) > 1 and fn != "append" else (args[2] if len(args) > 2 else Const(0)))
    if parts is not None and isinstance(axis, Const):
        gs = [known(ip, x, st) for x in parts]
        if all(x is not None for x in gs) and gs:
            if fn == "stack" and axis.v == 0:
                return L.new_arr(st, (len(gs),) + tuple(gs[0][0]), [e for x in gs for e in x[1]])
            if fn == "vstack":
                gs = [((1,) + tuple(x[0]), x[1]) if len(x[0]) == 1 else x for x in gs]
            if fn in ("concatenate", "vstack", "append") and axis.v in (0, None) or fn == "hstack" and len(gs[0][0]) == 1:
                if fn == "append" and (axis.v is None or len(gs[0][0]) == 1):
                    el = [e for x in gs for e in x[1]]
                    return L.new_arr(st, (len(el),), el)
                tails = {tuple(x[0][1:]) for x in gs}
                if len(tails) == 1:
                    return L.new_arr(st, (sum(x[0][0] for x in gs),) + tails.pop(), [e for x in gs for e in x[1]])
            if fn in ("concatenate", "hstack") and (axis.v == 1 or fn == "hstack") and all(len(x[0]) == 2 for x in gs):
                n = gs[0][0][0]
                el = [x[1][i * x[0][1] + j] for i in range(n) for x in gs for j in range(x[0][1])]
                return L.new_arr(st, (n, sum(x[0][1] for x in gs)), el)
    return generic(ip, name, args, kw, fr, st, node)


def re_im(x):
    t = terms(x) if is_num(x) else None
    if t and all(tyof(a) in ("int", "float", "bool") for m, _ in t.items() for a, _ in m):
        return (mk_poly({m: c.real for m, c in t.items() if c.real}, "float"), mk_poly({m: c.imag for m, c in t.items() if c.imag}, "float"))
    return func1("real", x), func1("imag", x)


def sort_complex(st, el):
    """ascending by real part, then imaginary part; None when the order is not known"""
    out = []
    for x in el:
        re, im = re_im(x)
        i = len(out)
        while i:
            r2, i2 = re_im(out[i - 1])
            lt = st.decide(cmp_num("lt", re, r2))
            if lt is None:
                return None
            if not lt:
                eq = st.decide(cmp_num("eq", re, r2))
                if eq is None:
                    return None
                lt = st.decide(cmp_num("lt", im, i2)) if eq else False
                if lt is None:
                    return None
            if not lt:
                break
            i -= 1
        out.insert(i, x)
    return out


def np_unique(ip, name, args, kw, fr, st, node, g):
    B, L = _m()
    if g is not None and not kw and all(isinstance(x, Const) and not isinstance(x.v, complex) for x in g[1]):
        vs = sorted({x.v for x in g[1]})
        return L.new_arr(st, (len(vs),), [Const(v) for v in vs])
    e = L.freeze(ip, args[0], st)
    n = 1 + sum(1 for k in ("return_index", "return_inverse", "return_counts") if kw.get(k) == TRUE)
    mk = lambda i: L.new_arr(st, expr=Opaque("unique", "ndarray") if has_opaque(e) else App("np.unique", (e, Const(i)) + kwpairs(ip, kw, st, L), "ndarray"))
    return mk(0) if n == 1 else Tup(mk(i) for i in range(n))


# ============================================================================ scipy
def call_scipy(ip, name, fn, args, kw, fr, st, node):
    B, L = _m()
    a = args[0] if args else None
    if fn in ("sparse.identity", "sparse.eye", "sparse.kron"):
        names = {"sparse.identity": ("n", "dtype", "format"), "sparse.eye": ("m", "n", "k", "dtype", "format"), "sparse.kron": ("A", "B", "format")}[fn]
        b = dict(zip(names, args))
        if len(args) > len(names) or set(b) & set(kw) or set(kw) - set(names):
            ip.raise_now("TypeError", fr, st, node)
        b.update(kw)
        fmt = b.get("format", NONE)
        if isinstance(fmt, Ref) or isinstance(fmt, Const) and fmt.v is not None and not isinstance(fmt.v, str):
            ip.raise_now("TypeError", fr, st, node)
        if isinstance(fmt, Const) and isinstance(fmt.v, str) and fmt.v not in ("csr", "csc", "coo", "bsr", "dia", "dok", "lil"):
            ip.raise_now("ValueError", fr, st, node)
        if isinstance(b.get("dtype"), Const) and isinstance(b["dtype"].v, str) and not re.fullmatch(r"[<>=|]?([bhilqBHILQfdgFDG?]|[iufcb][0-9]+|float\d*|int\d*|uint\d*|complex\d*|bool)", b["dtype"].v):
            ip.raise_now("TypeError", fr, st, node)
        if fn == "sparse.kron":
            for x in ("A", "B"):
                if x not in b or isinstance(b[x], Const) and isinstance(b[x].v, str):
                    ip.raise_now("TypeError" if x not in b else "ValueError", fr, st, node)
            return kron(ip, b["A"], b["B"], "sparse", fr, st, node)
        n = b.get("m" if fn == "sparse.eye" else "n")
        if n is None or isinstance(n, (ExtV, ClassV, FuncV, Tup)) or isinstance(n, Const) and (n.v is None or isinstance(n.v, str)):
            ip.raise_now("TypeError", fr, st, node)
        if fn == "sparse.eye" and (b.get("n", NONE) not in (NONE, n) or b.get("k", Const(0)) != Const(0)):
            raise Undecided("rectangular or shifted identity")
        if isinstance(n, Const) and n.v <= DENSE:
            return L.new_arr(st, (n.v, n.v), [Const(1.0 if i == j else 0.0) for i in range(n.v) for j in range(n.v)], kind="sparse")
        return L.new_arr(st, expr=App("identity", (L.freeze(ip, n, st),), "ndarray"), kind="sparse")
    if fn in ("sparse.csr_matrix", "sparse.csc_matrix", "sparse.coo_matrix", "sparse.csr_array", "sparse.lil_matrix", "sparse.dok_matrix", "sparse.bsr_matrix"):
        g = known(ip, a, st) if not isinstance(a, Tup) else None
        if g is not None and len(g[0]) == 2:
            return L.new_arr(st, g[0], g[1], kind="sparse")
        if isinstance(a, Tup) and len(a.items) == 2 and isinstance(a.items[1], Tup):
            data, (row, col) = a.items[0], a.items[1].items
            shp = kw.get("shape", args[1] if len(args) > 1 else NONE)
            gd, gr, gc = (known(ip, x, st) for x in (data, row, col))
            e = (L.freeze(ip, data, st), L.freeze(ip, row, st), L.freeze(ip, col, st), L.freeze(ip, shp, st))
            d = dims(ip, shp, fr, st, node) if shp != NONE else None
            if gd is not None and gr is not None and gc is not None and d is not None and all(isinstance(x, Const) for x in tuple(gr[1]) + tuple(gc[1]) + tuple(d)):
                n, m = d[0].v, d[1].v
                if n * m <= 4096:
                    el = [Const(0)] * (n * m)
                    for x, i, j in zip(gd[1], gr[1], gc[1]):
                        i, j = int(i.v), int(j.v)
                        if not (0 <= i < n and 0 <= j < m):
                            ip.raise_now("ValueError", fr, st, node)
                        el[i * m + j] = add(el[i * m + j], x)
                    return L.new_arr(st, (n, m), el, kind="sparse")
            if any(has_opaque(x) for x in e):
                return L.new_arr(st, expr=Opaque("csr", "ndarray"), kind="sparse")
            return L.new_arr(st, expr=App("csr", e, "ndarray"), kind="sparse")
        if isinstance(a, Tup) and len(a.items) == 2 and all(isinstance(x, Const) for x in a.items) and a.items[0].v * a.items[1].v <= 4096:
            return L.new_arr(st, [x.v for x in a.items], [Const(0)] * (a.items[0].v * a.items[1].v), kind="sparse")
        if isinstance(a, Tup) and len(a.items) == 2 and all(is_num(x) for x in a.items):
            return L.new_arr(st, expr=App("zeros", (Tup(L.freeze(ip, x, st) for x in a.items),), "ndarray"), kind="sparse")
        if isinstance(a, Ref) and isinstance(st.heap.get(a.id), ArrRec):
            return L.new_arr(st, expr=L.arr_expr(ip, st, a), kind="sparse")
    if fn in ("sparse.issparse", "sparse.isspmatrix"):
        if isinstance(a, Ref) and isinstance(st.heap.get(a.id), ArrRec) and st.rec(a).kind == "sparse":
            return TRUE
        return FALSE if isinstance(a, (Const, Tup)) else Sym("issparse%d" % next(L.st_ids()), "bool")
    if fn == "sparse.linalg.eigsh":
        e = L.freeze(ip, a, st)
        B.log_call(ip, name, args, kw, fr, st, node)
        if has_opaque(e):
            vals, vecs = Opaque("eigenvalues", "ndarray"), Opaque("eigenvectors", "ndarray")
        else:
            kp = kwpairs(ip, kw, st, L, drop=("return_eigenvectors",))
            vals, vecs = App("eigvals", (e,) + kp, "ndarray"), App("eigvecs", (e,) + kp, "ndarray")
        v = L.new_arr(st, expr=vals)
        if kw.get("return_eigenvectors") == FALSE:
            return v
        return Tup((v, L.new_arr(st, expr=vecs)))
    if fn in ("spatial.distance.pdist", "spatial.distance.cdist") and len(args) == (1 if fn.endswith("pdist") else 2) and not kw:
        ga = known(ip, a, st)
        gb = ga if fn.endswith("pdist") else known(ip, args[1], st)
        if ga is not None and len(ga[0]) != 2 or gb is not None and len(gb[0]) != 2:
            ip.raise_now("ValueError", fr, st, node)
        if ga is not None and gb is not None and len(ga[0]) == len(gb[0]) == 2 and len(ga[1]) * len(gb[1]) <= 4000000:
            if ga[0][1] != gb[0][1]:
                ip.raise_now("ValueError", fr, st, node)
            ra, rb = rows_of(ga), rows_of(gb)
            dist = lambda x, y: norm([sub(p, q) for p, q in zip(x, y)])
            if all(isinstance(x, Const) for x in ga[1] + gb[1]):
                ra, rb = [[x.v for x in r] for r in ra], [[x.v for x in r] for r in rb]
                dist = lambda x, y: Const(math.sqrt(sum((p - q) ** 2 for p, q in zip(x, y))))
            if fn.endswith("pdist"):
                el = [dist(ra[i], ra[j]) for i in range(len(ra)) for j in range(i + 1, len(ra))]
                return L.new_arr(st, (len(el),), el)
            return L.new_arr(st, (len(ra), len(rb)), [dist(x, y) for x in ra for y in rb])
    if fn == "spatial.distance.squareform" and len(args) == 1 and not kw:
        ga = known(ip, a, st)
        if ga is not None and len(ga[0]) == 1:
            k = ga[0][0]
            n = (1 + math.isqrt(1 + 8 * k)) // 2
            if n * (n - 1) // 2 != k:
                ip.raise_now("ValueError", fr, st, node)
            m = {}
            it = iter(ga[1])
            for i in range(n):
                for j in range(i + 1, n):
                    m[i, j] = m[j, i] = next(it)
            return L.new_arr(st, (n, n), [m.get((i, j), Const(0.0)) for i in range(n) for j in range(n)])
    if fn in ("spatial.cKDTree", "spatial.KDTree", "spatial.ckdtree.cKDTree", "spatial.kdtree.KDTree") and not kw:
        ga = known(ip, a, st)
        if ga is not None and len(ga[0]) == 2:
            return App("kdtree", (Tup(Const(x) for x in ga[0]), Tup(ga[1])), "kdtree")
        return App("kdtree", (Tup((Opaque("n", "int"), Opaque("m", "int"))), L.freeze(ip, a, st)), "kdtree")
    if fn == "special.comb" or fn == "special.perm":
        return App("float:" + fn, tuple(L.freeze(ip, x, st) for x in args) + kwpairs(ip, kw, st, L), "float" if kw.get("exact") != TRUE else "int")
    return generic(ip, name, args, kw, fr, st, node)


def rows_of(g):
    n, m = g[0]
    return [list(g[1][i * m:(i + 1) * m]) for i in range(n)]


def kdtree_points(o):
    if not (isinstance(o, App) and len(o.args) >= 2 and isinstance(o.args[0], Tup) and isinstance(o.args[1], Tup)) or not all(isinstance(x, Const) for x in o.args[1].items):
        return None
    n, m = (x.v for x in o.args[0].items)
    return n, m, [[x.v for x in r] for r in rows_of(((n, m), o.args[1].items))]


def kdtree_method(ip, o, name, args, kw, fr, st, node):
    """queries of a search tree over numerically known points"""
    B, L = _m()
    t = kdtree_points(o)
    if t is None:
        return None
    n, m, pts = t
    names = {"query": ("x", "k", "eps", "p", "distance_upper_bound", "workers"), "query_pairs": ("r", "p", "eps", "output_type"),
             "query_ball_point": ("x", "r", "p", "eps", "workers", "return_sorted", "return_length"),
             "query_ball_tree": ("other", "r", "p", "eps"), "count_neighbors": ("other", "r", "p")}.get(name)
    if names is None or len(args) > len(names):
        return None
    a = dict(zip(names, args))
    if set(a) & set(kw) or set(kw) - set(names):
        return None
    a.update(kw)
    if any(x not in a for x in names[:2 if "other" in names or name == "query_ball_point" else 1]):
        ip.raise_now("TypeError", fr, st, node)
    a.pop("workers", None)

    def const(k, default):
        v = a.pop(k, Const(default))
        if not isinstance(v, Const):
            raise Undecided("argument %s of %s" % (k, name))
        return v.v

    def dist(x, y):
        return math.sqrt(sum((u - v) ** 2 for u, v in zip(x, y)))

    def query_points(x):
        g = known(ip, x, st)
        if g is None or not all(isinstance(v, Const) for v in g[1]) or not g[0]:
            return None
        if g[0][-1] != m:
            ip.raise_now("ValueError", fr, st, node)
        return g[0][:-1], [[v.v for v in g[1][i * m:(i + 1) * m]] for i in range(len(g[1]) // m)]

    def within(d, r):
        if abs(d - r) <= 1e-10:
            raise Undecided("distance on the search radius")
        return d <= r
    if const("eps", 0) != 0 or const("p", 2) != 2:
        return None
    if name == "query":
        k, bound = const("k", 1), const("distance_upper_bound", math.inf)
        if "x" not in a or len(a) > 1 or not isinstance(k, int) or k < 1:
            return None
        q = query_points(a["x"])
        if q is None:
            return None
        sh, q = q
        ds, ix = [], []
        for x in q:
            d = sorted((dist(x, p), i) for i, p in enumerate(pts))
            if not d and k == 1 and bound == math.inf:
                return None
            d = [u for u in d if bound == math.inf or within(u[0], bound)]
            for i in range(k):
                if i < len(d):
                    tie = [u for u in d if abs(u[0] - d[i][0]) <= 1e-9]
                    ds.append(Const(d[i][0]))
                    ix.append(Const(d[i][1]) if len(tie) == 1 else Opaque("nearest point (tie)", "int"))
                else:
                    ds.append(Const(math.inf))
                    ix.append(Const(n))
        sh = tuple(sh) + ((k,) if k > 1 else ())
        if not sh:
            return Tup((ds[0], ix[0]))
        return Tup((L.new_arr(st, sh, ds), L.new_arr(st, sh, ix)))
    if name == "query_pairs":
        kind, r = const("output_type", "set"), const("r", None)
        if a or not isinstance(r, (int, float)):
            return None
        el = [(i, j) for i in range(n) for j in range(i + 1, n) if within(dist(pts[i], pts[j]), r)]
        if kind == "ndarray":
            return L.new_arr(st, (len(el), 2), [Const(x) for e in el for x in e])
        return L.make_set(ip, [Tup((Const(i), Const(j))) for i, j in el], fr, st, node)
    if name == "query_ball_point":
        r, length = const("r", None), const("return_length", False)
        const("return_sorted", None)
        if "x" not in a or len(a) > 1 or not isinstance(r, (int, float)):
            return None
        q = query_points(a["x"])
        if q is None:
            return None
        sh, q = q
        hits = [[i for i, p in enumerate(pts) if within(dist(x, p), r)] for x in q]
        el = [Const(len(h)) if length else st.new(ListRec([Const(i) for i in h], owner="fresh")) for h in hits]
        return el[0] if not sh else L.new_arr(st, sh, el)
    r, t2 = const("r", None), kdtree_points(a.pop("other", None))
    if a or t2 is None or not isinstance(r, (int, float)):
        return None
    hits = [[j for j, p in enumerate(t2[2]) if within(dist(x, p), r)] for x in pts]
    if name == "count_neighbors":
        return Const(sum(len(h) for h in hits))
    return st.new(ListRec([st.new(ListRec([Const(j) for j in h], owner="fresh")) for h in hits], owner="fresh"))