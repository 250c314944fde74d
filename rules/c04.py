"""C04: no aliasing of inputs or internals, no modification of operands."""
import ast

from .common import *
from .c16 import fresh

EXPL = ("Heap (points-to) analysis over the abstract interpreter's store: for every public class the mutable storage (array buffers with their views, lists, dictionaries, sets, objects with public setters) reachable from a new object is "
        "intersected with that of the caller's arguments; for every public accessor, method and function (enumerated from the current source) the storage reachable from the result is intersected with that of the object, of its arguments and of "
        "every module-level value; and every record reachable before the call from operands, arguments and module-level values is compared with its content after it (growth of private caches excepted).")


# ------------------------------------------------------------------ storage
def root(st, i):
    while True:
        r = st.heap.get(i)
        b = getattr(r, "base", None)
        if b is None:
            return i
        i = b.id if isinstance(b, Ref) else b


def setters(info):
    """class with public property setters or slots for public attributes"""
    for k in info.mro():
        for n, v in k.attrs.items():
            if isinstance(v, WrapV) and v.kind == "property" and v.extra and not n.startswith("_"):
                return True
    return False


def reach(st, *vals, objects=False, skip=()):
    """ids of the mutable storage reachable from the values -> description of the way there"""
    out = {}
    seen = set()
    todo = [(v, "") for v in vals]
    while todo:
        v, how = todo.pop()
        if isinstance(v, Ref):
            if v.id in seen:
                continue
            seen.add(v.id)
            r = st.heap.get(v.id)
            if isinstance(r, ArrRec):
                out.setdefault(root(st, v.id), how or "array")
            elif isinstance(r, ListRec):
                if r.kind in ("list", "deque", "bytearray") or r.elems is None:
                    out.setdefault(v.id, how or "list")
                for i, e in enumerate(r.elems or ()):
                    todo.append((e, how + "[%d]" % i))
            elif isinstance(r, DictRec):
                out.setdefault(v.id, how or r.kind)
                for it in r.items or ():
                    k, e = it if isinstance(it, tuple) else (it, None)
                    todo.append((k, how + "{key}"))
                    if e is not None:
                        todo.append((e, how + "[...]"))
            elif isinstance(r, ObjRec):
                if objects or setters(r.cls):
                    out.setdefault(v.id, how or r.cls.name)
                for k, e in r.fields.items():
                    todo.append((e, how + "." + k))
        elif isinstance(v, Tup):
            for i, e in enumerate(v.items):
                todo.append((e, how + "[%d]" % i))
        elif isinstance(v, Ite):
            todo += [(v.a, how), (v.b, how)]
        elif isinstance(v, SliceV):
            pass
        elif isinstance(v, MethV) and v.name in ("<keys>", "<items>", "<values>"):
            # a view of a dictionary is read-only: only what is in it counts
            r = st.heap.get(v.self_.id) if isinstance(v.self_, Ref) else None
            for it in (r.items or () if isinstance(r, DictRec) else ()):
                k, e = it if isinstance(it, tuple) else (it, None)
                if v.name != "<values>":
                    todo.append((k, how + "{key}"))
                if v.name != "<keys>" and e is not None:
                    todo.append((e, how + "[...]"))
        elif isinstance(v, (BoundV, MethV)):
            todo.append((v.self_, how))
        elif isinstance(v, WrapV):
            for e in v.extra or ():
                if isinstance(e, Val):
                    todo.append((e, how))
        elif isinstance(v, App):
            for e in v.args:
                if isinstance(e, Val):
                    todo.append((e, how))
        elif isinstance(v, ClassV):
            pass
    return out


def globals_of(c, st):
    out = []
    for key, d in st.locals.items():
        if key.startswith("mod:"):
            for n, v in d.items():
                if not isinstance(v, (ModV, ExtV, BltV, FuncV)):
                    out.append((key[4:], n, v))
                    if isinstance(v, ClassV) and v.info.mod == key[4:]:
                        for a, x in v.info.attrs.items():
                            if isinstance(x, Ref):
                                out.append((key[4:], n + "." + a, x))
    return out


class Snap:
    """content of the records reachable from some values"""

    def __init__(self, c, st, vals, caches=()):
        self.c, self.st0 = c, st.copy()
        self.recs = {}
        self.caches = set()
        for v in vals:
            for i in self.all_ids(st, v):
                self.recs.setdefault(i, st.heap[i].copy())
        for v in caches:
            self.caches |= set(self.all_ids(st, v))

    @staticmethod
    def all_ids(st, v):
        seen = []
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Ref):
                if x.id in seen or x.id not in st.heap:
                    continue
                seen.append(x.id)
                r = st.heap[x.id]
                if isinstance(r, ObjRec):
                    todo += list(r.fields.values())
                elif isinstance(r, ListRec):
                    todo += list(r.elems or ())
                elif isinstance(r, DictRec):
                    for it in r.items or ():
                        if isinstance(it, tuple):
                            todo += [y for y in it if isinstance(y, Val)]
                        else:
                            todo.append(it)
                elif isinstance(r, ArrRec) and r.base is not None:
                    todo.append(r.base if isinstance(r.base, Ref) else Ref(r.base))
            elif isinstance(x, Tup):
                todo += list(x.items)
            elif isinstance(x, Ite):
                todo += [x.a, x.b]
        return seen

    def changed(self, st, documented=()):
        """None or text describing the first record whose content differs; documented: attributes the operation is documented to set"""
        for i, r in self.recs.items():
            n = st.heap.get(i)
            if n is r or n is None:
                continue
            if type(n) is not type(r):
                return "record changed kind"
            if isinstance(r, ObjRec):
                for k, v in r.fields.items():
                    if n.fields.get(k) != v and k not in documented:
                        if k.startswith("_") and (self.lazy(st, v, n.fields.get(k)) or not self.visible(i, r, st)):
                            continue
                        return "attribute %s of a %s is rebound" % (k, r.cls.name)
                for k in n.fields:
                    if k not in r.fields and not k.startswith("_"):
                        return "attribute %s of a %s is added" % (k, r.cls.name)
            elif isinstance(r, ListRec):
                if n.elems != r.elems or n.sym != r.sym:
                    return "list content"
            elif isinstance(r, DictRec):
                if n.items == r.items:
                    continue
                if i in self.caches and n.items is not None and r.items is not None and all(x in n.items for x in r.items):
                    continue
                return "%s content" % r.kind
            elif isinstance(r, ArrRec):
                if (n.shape, n.elems, n.expr, n.dtype) != (r.shape, r.elems, r.expr, r.dtype):
                    return "array content or shape"
        return None

    def visible(self, i, r, st):
        """does what the object shows (public properties, repr, hash) differ between the two states?"""
        names = []
        for k in r.cls.mro():
            names += [n for n, v in k.attrs.items() if isinstance(v, WrapV) and v.kind == "property" and not n.startswith("_")]
        o = Ref(i)
        for src in ["o.%s" % n for n in names] + ["repr(o)", "hash(o)"]:
            got = []
            for s in (self.st0, st):
                s = s.copy()
                try:
                    out = self.c.ex(src, s, o=o)
                    got.append(self.c.freeze(out.value, out.st) if out.value is not None else "raises")
                except (Undecided, Dead, Refuted):
                    got.append("unknown")
            if got[0] != got[1]:
                return True
        return False

    @staticmethod
    def lazy(st, old, new):
        return isinstance(old, Const) and old.v is None and new is not None


# ------------------------------------------------------------------ driver
class Alias:
    def __init__(self, c):
        self.c = c
        self.st0 = fresh(c)
        self.glob = globals_of(c, self.st0)
        self.gids = {}
        for m, n, v in self.glob:
            for i, how in reach(self.st0, v).items():
                self.gids.setdefault(i, "%s.%s%s" % (m.split(".")[-1], n, how if how.startswith((".", "[")) else ""))

    def gids_now(self, st):
        out = dict(self.gids)
        for m, n, v in globals_of(self.c, st):
            for i, how in reach(st, v).items():
                out.setdefault(i, "%s.%s%s" % (m.split(".")[-1], n, how if how.startswith((".", "[")) else ""))
        return out

    def snap(self, st, vals):
        gl = globals_of(self.c, st)
        return Snap(self.c, st, list(vals) + [v for _, _, v in gl], [v for m, n, v in gl if n.split(".")[-1].startswith("_")])


def own_arrays(c, st, shape, name, kind="array"):
    """argument built by the caller"""
    n = 1
    for s in shape:
        n *= s
    el = [Sym("%s%d" % (name, i), "float") for i in range(n)]
    if kind == "array":
        return L.new_arr(st, tuple(shape), el, owner="caller")
    if len(shape) == 1:
        return st.new(ListRec(el, owner="caller"))
    k = n // shape[0]
    return st.new(ListRec([own_list(st, el[i * k:(i + 1) * k]) for i in range(shape[0])], owner="caller"))


def own_list(st, el):
    return st.new(ListRec(el, owner="caller"))


def check(c):
    c.rule("constructor", "no mutable storage of the caller is reachable from the new object")
    c.rule("accessor", "no mutable storage of the object, of its arguments or of module-level values is reachable from the result")
    c.rule("unmodified", "operands, arguments and module-level values have the same content after the operation")
    A = Alias(c)

    def run_op(tag, st, src, env, where, selfs=(), args=(), mod=None, allow_raise=True, result_args=True, mutates=()):
        """evaluate src and record the two obligations"""
        res = {}

        def ev():
            if "out" not in res:
                res["snap"] = A.snap(st, [v for v in list(selfs) + list(args) if v not in mutates])
                res["out"] = c.ex(src, st, mod=mod, **env)
            return res["out"]

        def acc():
            out = ev()
            if out.value is None:
                return (True if out.raises else None), "does not return"
            s = out.st
            rs = reach(s, out.value)
            for label, other in [("the object", reach(s, *selfs)), ("an argument", reach(s, *args) if result_args else {}), ("module-level value", A.gids_now(s))]:
                for i in rs:
                    if i in other:
                        return False, "the result%s shares storage with %s (%s)" % (rs[i] if rs[i].startswith((".", "[")) else "", label, other[i])
            if c_has_opaque(out.value, s):
                return None, "result not fully known"
            return True

        def unm():
            out = ev()
            sts = ([out.st] if out.value is not None else []) + [s for v, s, n in out.raises]
            if not sts:
                raise Undecided("no outcome")
            for s in sts:
                d = res["snap"].changed(s, ("_coeff",) if "coeff=" in src and "matrix_repr" in src else ())
                if d:
                    return False, d
            return True
        c.run("accessor", tag, acc, where)
        c.run("unmodified", tag, unm, where)

    def c_has_opaque(v, st):
        return isinstance(v, Opaque)

    # ------------------------------------------------------------ constructors
    makers = {}

    def ctor(cls_mod, cls_name, title, build):
        """build(st) -> (list of positional args, kwargs, caller-owned values)"""
        C = c.g(cls_mod, cls_name)

        def mk():
            st = fresh(c)
            args, kw, owned = build(st)
            snap = A.snap(st, owned)
            out = c.ex("C(*a, **k)", st, mod=cls_mod, C=C, a=Tup(tuple(args)), k=st.new(DictRec([(Const(n), v) for n, v in kw.items()])))
            if out.value is None:
                raise Undecided("constructor did not return")
            return out, snap, owned, args, kw
        makers[cls_name, title] = mk

        def alias():
            out, snap, owned, _, _ = mk()
            s = out.st
            if not isinstance(out.value, Ref):
                raise Undecided("constructor result")
            robj = reach(s, out.value)
            rown = reach(s, *owned)
            for i in robj:
                if i in rown:
                    return False, "self%s shares storage with the caller's argument%s" % (robj[i], rown[i] if rown[i].startswith(("[", ".")) else "")
            g = A.gids_now(s)
            for i in robj:
                if i in g:
                    return False, "self%s shares storage with %s" % (robj[i], g[i])
            return True

        def unm():
            out, snap, owned, _, _ = mk()
            for s in [out.st] + [s for v, s, n in out.raises]:
                d = snap.changed(s)
                if d:
                    return False, d
            return True
        c.run("constructor", "%s: %s" % (cls_name, title), alias, c.where(C))
        c.run("unmodified", "%s(): %s" % (cls_name, title), unm, c.where(C))

    def arr(st, n, name, kind="array"):
        v = own_arrays(c, st, n if isinstance(n, tuple) else (n,), name, kind)
        return v

    for kind in ("array", "list"):
        for n in (1, 2, 3):
            def b(st, n=n, kind=kind):
                v = arr(st, n, "p", kind)
                return [v], {}, [v]
            ctor(QS, "SiteID", "%d-D site as %s" % (n, kind), b)
            ctor(QS, "StateID", "%d-D site as %s" % (n, kind), b)

            def b2(st, n=n, kind=kind):
                v = arr(st, n, "p", kind)
                return [otype_of(c, "C"), v], {"spin": Const(1)}, [v]
            ctor(PS, "AoC", "%d-D site as %s" % (n, kind), b2)
            ctor(PS, "NumberOperator", "%d-D site as %s" % (n, kind), b)

            def b3(st, n=n, kind=kind):
                v = arr(st, n, "p", kind)
                return [Const("x"), v], {}, [v]
            ctor(SS, "SpinOperator", "%d-D site as %s" % (n, kind), b3)

            def b4(st, n=n, kind=kind):
                v, w = arr(st, n, "p", kind), arr(st, n, "q", kind)
                return [v, w], {}, [v, w]
            ctor(BO, "Bond", "%d-D points as %s" % (n, kind), b4)

            def b5(st, n=n, kind=kind):
                v, w = arr(st, n, "p", kind), arr(st, n, "q", kind)
                return [v, w], {"directional": FALSE}, [v, w]
            ctor(BO, "Bond", "undirected, %d-D points as %s" % (n, kind), b5)
        if True:
            def b6(st, kind=kind):
                v, w = arr(st, 2, "p", kind), arr(st, 2, "q", kind)
                return [v, w], {}, [v, w]
            ctor(L2, "Line2D", "points as %s" % kind, b6)

            def b7(st, kind=kind):
                el = [Const(float(x)) for x in (0, 0, 2, 0, 2, 1, 0, 1)]
                v = L.new_arr(st, (4, 2), el, owner="caller") if kind == "array" else own_list(st, [own_list(st, el[2 * i:2 * i + 2]) for i in range(4)])
                return [v], {}, [v]
            ctor(PG, "Polygon", "vertices as %s" % kind, b7)
    for n in (1, 2, 3):
        for nv in (1, 2):
            if nv > 1 and n == 1:
                continue

            def b8(st, n=n, nv=nv):
                P = L.new_arr(st, (2, n), [Const(float(x)) for x in ([0, 0.5] if n == 1 else [0, 0, 0.5, 0.25] if n == 2 else [0, 0, 0, 0.5, 0.25, 0.125])], owner="caller")
                V = L.new_arr(st, (nv, n), [Const(1.0 if i == j else 0.25 * (j > i)) for i in range(nv) for j in range(n)], owner="caller")
                return [P, V], {"name": Const("lat")}, [P, V]
            ctor(LA, "Lattice", "%d vectors in %d-D" % (nv, n), b8)

    def aocs(st, spec="CA"):
        return [c.call(c.g(PS, "AoC"), [otype_of(c, o), Tup((Const(i), Const(0)))], {"spin": Const(1)}, st) for i, o in enumerate(spec)]

    def pterm(spec, kind, **kw):
        def b(st):
            v = own_list(st, aocs(st, spec)) if kind == "list" else Tup(tuple(aocs(st, spec)))
            return [v], dict(kw), [v]
        return b
    for kind in ("list", "tuple"):
        ctor(PS, "ParticleTerm", "%s of operators" % kind, pterm("CA", kind, coeff=Sym("k", "complex")))
        ctor(PS, "ParticleTerm", "%s of four operators" % kind, pterm("CCAA", kind))
        ctor(PS, "ParticleTerm", "hopping, %s" % kind, pterm("CA", kind, coeff=Sym("k", "complex"), classification=Const("hopping")))

        def b9(st, kind=kind):
            ops = [c.call(c.g(SS, "SpinOperator"), [Const(o), Tup((Const(i), Const(0)))], {}, st) for i, o in enumerate("xz")]
            v = own_list(st, ops) if kind == "list" else Tup(tuple(ops))
            return [v], {"coeff": Sym("k", "float")}, [v]
        ctor(SS, "SpinInteraction", "%s of operators" % kind, b9)

        def b10(st, kind=kind):
            v = own_list(st, aocs(st, "CA")) if kind == "list" else Tup(tuple(aocs(st, "CA")))
            return [v], {}, [v]
        ctor(IT, "IndexTable", "%s of objects" % kind, b10)
    ctor(IT, "IndexTable", "list of tuples", lambda st: (lambda v: ([v], {}, [v]))(own_list(st, [Tup((Const(0), Const(1))), Tup((Const(1), Const(2)))])))
    states = {"list": lambda st: own_list(st, [Const(0), Const(2), Const(1)]), "set": lambda st: st.new(DictRec([(Const(0), NONE), (Const(2), NONE), (Const(1), NONE)], kind="set", owner="caller")), "tuple": lambda st: Tup((Const(0), Const(2), Const(1)))}
    for kind, f in states.items():
        for num in (None, 1, -1, 2):
            def b11(st, f=f, num=num):
                v = f(st)
                return [v] + ([Const(num)] if num is not None else []), {}, [v]
            ctor(HS, "SimpleHilbertSpace", "states as %s%s" % (kind, "" if num is None else ", number %d" % num), b11)

        def b12(st, f=f):
            v, w = f(st), own_list(st, [Const(3), Const(4)])
            sp = own_list(st, [v, Const(1)])
            return [sp, Tup((w, Const(1)))], {}, [sp, v, w]
        ctor(HS, "HilbertSpace", "two subspaces, states as %s" % kind, b12)

        def b13(st, f=f):
            v = f(st)
            sp = own_list(st, [v, Const(-1)])
            return [sp], {}, [v, sp]
        ctor(HS, "HilbertSpace", "states as %s" % kind, b13)

    # ------------------------------------------------------------ accessors, enumerated from the source
    def makers_first(cls_name):
        return next(k for k in makers if k[0] == cls_name)

    EXTRA = METHODS
    for (cls_name, title), mk in list(makers.items()):
        first = [k for k in makers if k[0] == cls_name]
        if not c.thorough and (cls_name, title) not in (first[0], first[-1]) and cls_name not in ("SpinOperator", "Lattice"):
            continue
        cls_mod = {"SiteID": QS, "StateID": QS, "AoC": PS, "NumberOperator": PS, "ParticleTerm": PS, "SpinOperator": SS, "SpinInteraction": SS, "Bond": BO, "Line2D": L2, "Polygon": PG, "Lattice": LA, "IndexTable": IT,
                   "SimpleHilbertSpace": HS, "HilbertSpace": HS}[cls_name]
        C = c.g(cls_mod, cls_name)
        info = C.info
        names = {}
        for k in info.mro():
            for n, v in k.attrs.items():
                names.setdefault(n, v)
        for n, v in sorted(names.items()):
            if n.startswith("_") and n not in ("__repr__", "__str__", "__hash__", "__len__", "__iter__"):
                continue
            if n.startswith(("show", "Show")) or isinstance(v, (Const, Ref)):
                continue
            is_prop = isinstance(v, WrapV) and v.kind == "property"
            f = v.f if isinstance(v, WrapV) else v
            if not isinstance(f, FuncV):
                continue
            a = f.node.args
            req = [x.arg for x in a.args][:len(a.args) - len(a.defaults)]
            static = isinstance(v, WrapV) and v.kind == "staticmethod"
            req = req if static else req[1:]
            req += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
            if is_prop:
                calls = [("o.%s" % n, E0)]
            elif n == "__iter__":
                calls = [("list(iter(o))", E0)]
            elif n.startswith("__"):
                calls = [("o.%s()" % n, E0)]
            else:
                calls = [("o.%s()" % n, E0)] if not req else []
            for src, envf in EXTRA.get((cls_name, n), []) + EXTRA.get(("*", n), []):
                calls.append((src, envf))
            if not calls:
                c.notes.append("no arguments known for %s.%s(%s)" % (cls_name, n, ", ".join(req)))
            for src, envf in calls:
                def go():
                    out, snap, owned, args, kw = mk()
                    st = out.st
                    env, extra = envf(c, st, out.value)
                    env = dict(env)
                    env["o"] = out.value
                    return st, env, extra, out.value
                try:
                    st, env, extra, o = go()
                except (Undecided, Dead, Refuted) as e:
                    c.add("accessor", "%s [%s]: %s" % (cls_name, title, src), None, c.where(f), "inputs: %s" % e)
                    continue
                run_op("%s [%s]: %s" % (cls_name, title, src), st, src, env, c.where(f), selfs=[o], args=extra, mod=cls_mod)
    # binary operators
    for cls_name in ("AoC", "NumberOperator", "ParticleTerm", "SpinOperator", "SpinInteraction", "SiteID", "StateID", "Bond"):
        mk = makers[makers_first(cls_name)]
        cls_mod = {"SiteID": QS, "StateID": QS, "AoC": PS, "NumberOperator": PS, "ParticleTerm": PS, "SpinOperator": SS, "SpinInteraction": SS, "Bond": BO}[cls_name]
        C = c.g(cls_mod, cls_name)
        exprs = ["o == p", "o != p", "o < p", "o <= p", "o > p", "o >= p", "hash(o)", "o in [p]", "{o: 1}[o]"]
        if cls_name in ("AoC", "NumberOperator", "ParticleTerm", "SpinOperator", "SpinInteraction"):
            exprs = ["o * p", "p * o", "o * o", "2 * o", "o * 1.0", "k * o", "o * k", "1 * o", "o * 1", "2j * o * 3", "o * o * o"] + (exprs if cls_name not in ("ParticleTerm", "SpinInteraction") else [])
        for src in exprs:
            def go():
                out, snap, owned, args, kw = mk()
                st = out.st
                v = c.ex("C(*a, **k)", st, mod=cls_mod, C=C, a=Tup(tuple(args)), k=st.new(DictRec([(Const(n), x) for n, x in kw.items()])))
                if v.value is None:
                    raise Undecided("second operand")
                return v.st, {"o": out.value, "p": v.value, "k": Sym("k2", "complex")}, [v.value], out.value
            try:
                st, env, extra, o = go()
            except (Undecided, Dead, Refuted) as e:
                c.add("accessor", "%s: %s" % (cls_name, src), None, c.where(C), "inputs: %s" % e)
                continue
            run_op("%s: %s" % (cls_name, src), st, src, env, c.where(C), selfs=[o], args=extra, mod=cls_mod)
        if cls_name in ("ParticleTerm", "SpinInteraction"):
            # the documented setter changes that object only
            def setter():
                out, snap, owned, args, kw = mk()
                st = out.st
                t = c.ex("(o * p, 2 * o, o.dagger())", st, mod=cls_mod, o=out.value, p=out.value)
                if t.value is None:
                    raise Undecided("products")
                st = t.st
                before = [c.freeze(x, st) for x in t.value.items]
                comps = c.do("o.components", st, mod=cls_mod, o=out.value)
                st = set_attr(c, st, out.value, "coeff", Const(7.5))
                if c.veq(c.do("o.coeff", st, mod=cls_mod, o=out.value), Const(7.5), st) is not True:
                    return None, "setter"
                return [c.freeze(x, st) for x in t.value.items] == before, "changing the coefficient of a term changes terms computed from it"
            c.run("unmodified", "%s: setting coeff after products were formed" % cls_name, setter, c.where(C))
    # ------------------------------------------------------------ functions
    for mod, name, title, src, envf in functions(c):
        try:
            F = c.g(mod, name)
        except Exception:
            c.add("accessor", "%s.%s" % (mod, title), None, mod, "not found")
            continue
        st = fresh(c)
        env, owned = envf(st)
        env = dict(env, F=F)
        run_op("%s %s" % (name, title), st, src, env, c.where(F), selfs=[], args=owned, mod=mod)
    return c.finish(EXPL, floor=600)


def set_attr(c, st, o, name, v):
    out = c.ex("setattr(o, n, v)", st, o=o, n=Const(name), v=v)
    if out.value is None:
        raise Undecided("setattr")
    return out.st


def tab(c, st, *objs):
    return c.call(c.g(IT, "IndexTable"), [st.new(ListRec(list(objs), owner="caller"))], {}, st)


def attr(c, st, o, name):
    return c.do("o." + name, st, o=o)


def E0(c, st, o):
    return {}, []


def with_table(name=None):
    """a table of the object itself (or of one of its attributes)"""
    def f(c, st, o):
        t = tab(c, st, attr(c, st, o, name) if name else o)
        return {"t": t}, [t]
    return f


def with_site(dim_of=None):
    def f(c, st, o):
        v = own_arrays(c, st, (2,), "w")
        return {"w": v}, [v]
    return f


def bases(c, st, n=4, name="r"):
    return L.new_arr(st, (n,), [Const(i) for i in range(n)], owner="caller", dtype="uint64")


def with_repr(c, st, o):
    ss = []
    comps = []
    try:
        comps = [c.do("o.components[%d]" % i, st, o=o) for i in range(c.do("len(o.components)", st, o=o).v)]
    except (Undecided, Refuted, AttributeError):
        comps = [o]
    for x in comps:
        s = attr(c, st, x, "state")
        if s not in ss:
            ss.append(s)
    t = tab(c, st, *ss)
    r, l = bases(c, st), bases(c, st)
    return {"t": t, "r": r, "l": l}, [t, r, l]


def spin_table(c, st, o):
    try:
        ss = [attr(c, st, c.do("o.components[%d]" % i, st, o=o), "site_id") for i in range(c.do("len(o.components)", st, o=o).v)]
    except (Undecided, Refuted, AttributeError):
        ss = [attr(c, st, o, "site_id")]
    t = tab(c, st, *ss)
    return {"t": t}, [t]


def spin_list(c, st, o):
    one = st.new(ListRec([Const(0), Const("x")], owner="caller"))
    l = st.new(ListRec([Tup((Const(0), Const("z"))), Tup((Const(1), Const("x")))], owner="caller"))
    return {"pairs": l, "x": one}, [l, one]


def norm_list(c, st, o):
    ops = [c.call(c.g(PS, "AoC"), [otype_of(c, k), Tup((Const(i), Const(0)))], {}, st) for i, k in enumerate("ACA")]
    l = st.new(ListRec(ops, owner="caller"))
    return {"l": l}, [l]


def point(c, st, o):
    v, w = own_arrays(c, st, (2,), "u"), own_arrays(c, st, (2,), "w", "list")
    return {"u": v, "w": w}, [v, w]


def cpoint(c, st, o):
    v, w = L.new_arr(st, (2,), [Const(0.5), Const(0.25)], owner="caller"), st.new(ListRec([Const(1.0), Const(0.5)], owner="caller"))
    return {"u": v, "w": w}, [v, w]


def ratios(c, st, o):
    v, w = own_arrays(c, st, (3,), "u"), own_arrays(c, st, (2,), "w", "list")
    return {"u": v, "w": w}, [v, w]


def lsite(c, st, o):
    p = c.do("o.getSite(0)", st, o=o)
    v = c.do("o.getSite(0) + o.vectors[0]", st, o=o)
    return {"p": p, "v": v}, [p, v]


def same(src_cls):
    def f(c, st, o):
        return {"p": o}, [] if src_cls else [o]
    return f


def M(*srcs, env=E0):
    return [(s, env) for s in srcs]


METHODS = {
    ("*", "tolatex"): M("o.tolatex()"),
    ("SiteID", "tolatex"): M("o.tolatex(site_index=3)", "o.tolatex(ndigits=2)"),
    ("*", "conjugate_of"): M("o.conjugate_of(o)"), ("*", "same_state"): M("o.same_state(o)"), ("*", "same_site"): M("o.same_site(o)"), ("*", "oppositeTo"): M("o.oppositeTo(o)"),
    ("SiteID", "getIndex"): M("o.getIndex(t)", env=with_table()), ("StateID", "getIndex"): M("o.getIndex(t)", env=with_table()),
    ("AoC", "getIndex"): M("o.getIndex(t)", env=with_table()), ("AoC", "getStateIndex"): M("o.getStateIndex(t)", env=with_table("state")),
    ("NumberOperator", "getIndex"): M("o.getIndex(t)", env=with_table()), ("NumberOperator", "getStateIndex"): M("o.getStateIndex(t)", env=with_table("state")),
    ("SpinOperator", "getIndex"): M("o.getIndex(t)", env=with_table()), ("SpinOperator", "getSiteIndex"): M("o.getSiteIndex(t)", env=with_table("site_id")),
    ("AoC", "derive"): M("o.derive(site=w)", "o.derive(spin=1, site=w)", "o.derive(orbit=2)", env=with_site()), ("NumberOperator", "derive"): M("o.derive(site=w)", "o.derive(orbit=2)", env=with_site()),
    ("SpinOperator", "derive"): M("o.derive(site=w)", "o.derive(otype='z')", env=with_site()),
    ("AoC", "matrix_repr"): M("o.matrix_repr(t, r)", "o.matrix_repr(t, r, left_bases=l)", "o.matrix_repr(t, r, to_csr=False)", env=with_repr),
    ("NumberOperator", "matrix_repr"): M("o.matrix_repr(t, r)", "o.matrix_repr(t, r, to_csr=False)", env=with_repr),
    ("ParticleTerm", "matrix_repr"): M("o.matrix_repr(t, r)", "o.matrix_repr(t, r, left_bases=l)", "o.matrix_repr(t, r, to_csr=False)", "o.matrix_repr(t, r, coeff=2.0)", env=with_repr),
    ("ParticleTerm", "normalize"): M("o.normalize(l)", "type(o).normalize(l)", "o.normalize(tuple(l))", env=norm_list),
    ("SpinOperator", "matrix_function"): M("o.matrix_function(x, 2)", "o.matrix_function((0, 'z'), 1)", "o.matrix_function((1, 'p'), 2)", env=spin_list), ("SpinOperator", "matrix_repr"): M("o.matrix_repr(t)", env=spin_table),
    ("SpinInteraction", "matrix_function"): M("o.matrix_function(pairs, 2)", "o.matrix_function(pairs, 3, coeff=2.0)", env=spin_list),
    ("SpinInteraction", "matrix_repr"): M("o.matrix_repr(t)", "o.matrix_repr(t, coeff=2.0)", env=spin_table),
    ("IndexTable", "query_index"): M("o.query_index(list(o.objects())[0])"), ("IndexTable", "query_object"): M("o.query_object(0)"),
    ("IndexTable", "objects"): M("list(o.objects())"), ("IndexTable", "indices"): M("list(o.indices())"),
    ("SimpleHilbertSpace", "base_vectors"): M("o.base_vectors(container='list')", "o.base_vectors(container='tuple')", "o.base_vectors(sort=False)"),
    ("HilbertSpace", "base_vectors"): M("o.base_vectors(container='list')", "o.base_vectors(container='tuple')", "o.base_vectors(sort=False)"),
    ("Line2D", "PointsFactory"): M("o.PointsFactory(u)", "o.PointsFactory(w)", env=ratios), ("Line2D", "LocationRelation"): M("o.LocationRelation(u)", "o.LocationRelation(w)", env=point),
    ("Line2D", "Coordinate"): M("o.Coordinate(0.5)", "o.Coordinate(0.5, which='y')"),
    ("Polygon", "LocationRelation"): M("o.LocationRelation(u, w)", "o.LocationRelation(w, u)", env=cpoint),
    ("Lattice", "getSite"): M("o.getSite(0)", "o.getSite(1)"), ("Lattice", "getIndex"): M("o.getIndex(p)", "o.getIndex(v, fold=True)", env=lsite), ("Lattice", "decompose"): M("o.decompose(p)", "o.decompose(v)", env=lsite),
    ("Lattice", "neighbor_distance"): M("o.neighbor_distance(1)", "o.neighbor_distance(2)"), ("Lattice", "bonds"): M("o.bonds(0)", "o.bonds(1)", "o.bonds(1, fold=True)", "o.bonds(2, only=False)"),
    ("Lattice", "in_cluster"): M("o.in_cluster(p)", "o.in_cluster(v)", env=lsite),
    ("Bond", "getLength"): M("o.getLength(3)"), ("Bond", "getDisplace"): M("o.getDisplace(3)"), ("Bond", "getAzimuth"): M("o.getAzimuth(radian=True)", "o.getAzimuth(ndigits=3)"),
}


def functions(c):
    def sites(n, kind="array"):
        def f(st):
            vs = [own_arrays(c, st, (2,), "s%d" % i, kind) for i in range(n)]
            return {"s%d" % i: v for i, v in enumerate(vs)}, vs
        return f
    out = []
    FAm = FA
    for kind in ("array", "list"):
        t = " (%s sites)" % kind
        for name, n, src in [("Creator", 1, "F(s0)"), ("Annihilator", 1, "F(s0)"), ("CPFactory", 1, "F(s0, coeff=2.0)"), ("HoppingFactory", 2, "F(s0, s1)"), ("PairingFactory", 2, "F(s0, s1)"), ("HubbardFactory", 1, "F(s0)"),
                             ("CoulombFactory", 2, "F(s0, s1)"), ("HeisenbergFactory", 2, "F(s0, s1)"), ("IsingFactory", 2, "F(s0, s1, 'z')"), ("TwoSpinTermFactory", 2, "F(s0, s1, 'x', 'z')")]:
            out.append((FAm, name, src + t, src, sites(n, kind)))

    def nothing(st):
        return {}, []
    for name in ("RotationX", "RotationY", "RotationZ"):
        for src in ("F(0)", "F(t)", "F(90, deg=True)", "F(0.0, inversion=True)"):
            out.append((R3, name, src, src, lambda st: ({"t": Sym("t", "float")}, [])))
    for src in ("F(0, 0, 0)", "F(t, 0.5, 1.0)"):
        out.append((R3, "RotationEuler", src, src, lambda st: ({"t": Sym("t", "float")}, [])))

    def axis(n, kind):
        def f(st):
            v = L.new_arr(st, (n,), [Const(float(i + 1)) for i in range(n)], owner="caller") if kind == "array" else st.new(ListRec([Const(float(i + 1)) for i in range(n)], owner="caller"))
            return {"a": v}, [v]
        return f
    for n in (2, 3):
        for kind in ("array", "list"):
            out.append((R3, "RotationGeneral", "%d numbers as %s" % (n, kind), "F(a, 0.5, deg=True)", axis(n, kind)))

    def hs(st):
        l = st.new(ListRec([Const(0), Const(2)], owner="caller"))
        m = st.new(ListRec([l, Const(1)], owner="caller"))
        a = st.new(ListRec([Const(1), Const(3)], owner="caller"))
        return {"l": l, "m": m, "a": a}, [l, m, a]
    for src in ("F(m)", "F((l, 1), container='list')", "F((l, 1), (a, 1))", "F(4)", "F(m, (a, 1), container='tuple')"):
        out.append((HS, "base_vectors", src, src, hs))
    for src in ("F('cross')", "F('SD')"):
        out.append((DB, "special_cluster", src, src, nothing))
    for src in ("F('chain')", "F('chain', 3)", "F('square')", "F('square', 2, 1)", "F('cubic')", "F('honeycomb')", "F('kagome', 1, 2)"):
        out.append((DB, "lattice_generator", src, src, nothing))

    def kp(st):
        ps = [L.new_arr(st, (2,), [Const(float(x)) for x in p], owner="caller") for p in ((0, 0), (1, 0), (1, 1))]
        l = st.new(ListRec(ps, owner="caller"))
        a = L.new_arr(st, (3, 2), [Const(float(x)) for p in ((0, 0), (1, 0), (1, 1)) for x in p], owner="caller")
        return {"l": l, "a": a}, [l, a] + ps
    for src in ("F(l, min_num=3)", "F(a, min_num=2, loop=False)", "F(l, min_num=2, return_indices=False)"):
        out.append((LA, "KPath", src, src, kp))

    def qa(st):
        k = L.new_arr(st, (2,), [Sym("k%d" % i, "complex") for i in range(2)], owner="caller")
        m = L.new_arr(st, (2, 2), [Sym("m%d" % i, "complex") for i in range(4)], owner="caller")
        n = L.new_arr(st, (2, 2), [Sym("n%d" % i, "complex") for i in range(4)], owner="caller")
        l = st.new(ListRec([m, n], owner="caller"))
        return {"k": k, "m": m, "l": l}, [k, m, n, l]
    for src in ("F(k, m)", "F(k, l[0])"):
        out.append((AV, "QuantumAverages", src, src, qa))
    for mod, name in ((AV, "TotalSpinMatrices"), (TL + ".TotalSpin", "TotalSpin")):
        for n in (1, 2, 3):
            out.append((mod, name, "F(%d)" % n, "F(%d)" % n, nothing))
    return out
