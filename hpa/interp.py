"""Interprocedural abstract interpreter over the syntax tree of the analysed package.

Values are value-graph nodes (vals.py); control-flow merges join states (state.py); loops over
containers of known shape are unrolled, other loops are havocked.  Nothing of the analysed
package is imported or executed.
"""
import ast
import builtins
import itertools

from .project import ClassInfo, Project, PKG
from .state import *
from .vals import *

MAXDEPTH = 45
MAXITER = 5000
MAXWHILE = 400
BUDGET = 1500000

BUILTIN_NAMES = set(dir(builtins))


class Frame:
    __slots__ = ("fid", "mod", "cls", "parent", "localnames", "globalnames", "nonlocalnames", "exits", "loops", "qual", "gen", "depth", "selfval", "escapes")

    def __init__(self, fid, mod, parent=None, localnames=(), globalnames=(), cls=None, qual="", depth=0):
        self.fid, self.mod, self.parent = fid, mod, parent
        self.localnames, self.globalnames = set(localnames), set(globalnames)
        self.nonlocalnames = set()
        self.exits, self.loops = [], []
        self.cls, self.qual, self.depth = cls, qual, depth
        self.gen = None
        self.selfval = None
        self.escapes = False


class ExcVal(Val):
    """exception value (builtin class) with its arguments"""
    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)
        self._k(("E", cls, self.args))


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


def assigned_names(node):
    """names bound in a function body (not in nested functions)"""
    out, glob, nonl = set(), set(), set()

    def tgt(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(c.name)
                for d in c.decorator_list:
                    walk(d)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        tgt(w.target)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add((a.asname or a.name).split(".")[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            elif isinstance(c, ast.Global):
                glob.update(c.names)
            elif isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            walk(c)
    walk(node)
    return out - glob - nonl, glob, nonl


def is_generator(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def jit_signature(e):
    """[(element type, dimensions)] of the parameters of a written numba signature; None when it is not one"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        try:
            e = ast.parse(e.value, mode="eval").body
        except SyntaxError:
            return None
    if not isinstance(e, ast.Call):
        return None
    out = []
    for a in e.args:
        nd = 0
        if isinstance(a, ast.Subscript):
            nd = len(a.slice.elts) if isinstance(a.slice, ast.Tuple) else 1
            a = a.value
        if not isinstance(a, (ast.Name, ast.Attribute)):
            return None
        out.append((a.id if isinstance(a, ast.Name) else a.attr, nd))
    return out


class Interp:
    def __init__(self, project=None, repo=None):
        self.project = project or (Project(repo) if repo else Project())
        self.base = State()
        self.frames = {}
        self.modframes = {}
        self.modstate = {}
        self.settings = {}       # (module, name) -> initial Val
        self.settings_sym = {}
        self.module_errors = []
        self.module_effects = {}
        self.steps = 0
        self.budget = BUDGET
        self._scopes = {}
        self._fid = itertools.count(1)
        self.callstack = []
        self.jit_sigs = {}       # compiled functions with declared argument types
        self.analysed = set()
        self.events = []
        from . import lib
        self.lib = lib

    # ================================================================ modules
    def load_all(self, names=None):
        for n in names or sorted(self.project.modules):
            self.module(n)

    def module(self, name, st=None):
        """ensure the module is evaluated; returns its frame"""
        if name in self.modframes:
            return self.modframes[name]
        m = self.project.modules[name]
        fid = "mod:" + name
        fr = Frame(fid, name, qual=name)
        self.modframes[name] = fr
        self.frames[fid] = fr
        self.base.locals[fid] = {"__name__": Const(name), "__file__": Sym("__file__", "str"), "__doc__": Const("")}
        saved, self.base.effects = self.base.effects, ()
        glob = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                glob.update(n.names)
        for stmt in m.tree.body:
            try:
                st2 = self.exec_stmt(stmt, fr, self.base)
                if st2 is None:
                    for e in fr.exits:
                        if e[0] == "raise":
                            self.module_errors.append((name, stmt.lineno, self.exc_name(e[1]), e[1]))
                    fr.exits = []
                    break
                if st2 is not self.base:
                    self.base.become(st2)
            except Undecided as e:
                for n in ast.walk(stmt):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        self.base.locals[fid][n.id] = Opaque("module-level %s: %s" % (n.id, e))
                for n in (stmt,):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        self.base.locals[fid][n.name] = Opaque("%s: %s" % (n.name, e))
            for e in fr.exits:
                if e[0] == "raise":
                    self.module_errors.append((name, stmt.lineno, self.exc_name(e[1]), e[1]))
            fr.exits = []
        for g in glob:
            if g in self.base.locals[fid]:
                v = self.base.locals[fid][g]
                self.settings[name, g] = v
                ty = tyof(v) if isinstance(v, Const) else "any"
                if ty == "float" or ty == "int":
                    s = Sym("setting:%s.%s" % (name.split(".")[-1], g), ty)
                    self.settings_sym[name, g] = s
                    self.base.locals[fid][g] = s
                    self.base.facts[cmp_num("gt", s, Const(0))] = True
        self.module_effects[name], self.base.effects = self.base.effects, saved
        # name the owner of module-level heap objects
        for n, v in list(self.base.locals[fid].items()):
            if isinstance(v, Ref) and v.id in self.base.heap:
                r = self.base.heap[v.id]
                if not r.owner.startswith("global"):
                    r.owner = "global:%s.%s" % (name, n)
        return fr

    def g(self, mod, name):
        """global value of a module"""
        self.module(mod)
        return self.base.locals["mod:" + mod].get(name)

    def fresh(self):
        """new analysis state starting from the evaluated modules"""
        s = self.base.copy()
        s.effects = ()
        return s

    def top(self, mod=None):
        fid = "top%d" % next(self._fid)
        fr = Frame(fid, mod or PKG, qual="<analysis>")
        self.frames[fid] = fr
        return fr

    # ================================================================ statements
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("analysis budget exhausted")

    def exec_block(self, stmts, fr, st):
        for s in stmts:
            st = self.exec_stmt(s, fr, st)
            if st is None:
                return None
        return st

    def exec_stmt(self, s, fr, st):
        self.tick()
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Undecided("statement %s" % type(s).__name__)
            return m(s, fr, st)
        except Dead:
            return None

    def s_Pass(self, s, fr, st):
        return st

    def s_Expr(self, s, fr, st):
        self.eval(s.value, fr, st)
        return st

    def s_Assign(self, s, fr, st):
        v = self.eval(s.value, fr, st)
        for t in s.targets:
            self.assign(t, v, fr, st)
        return st

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr, st), fr, st)
        return st

    def s_AugAssign(self, s, fr, st):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr, st, t)
            new = self.inplace(op, old, self.eval(s.value, fr, st), fr, st, s)
            self.store_name(t.id, new, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, st)
            old = self.getattr(o, t.attr, fr, st, t)
            new = self.inplace(op, old, self.eval(s.value, fr, st), fr, st, s)
            self.setattr(o, t.attr, new, fr, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            i = self.eval(t.slice, fr, st)
            old = self.lib.getitem(self, o, i, fr, st, t)
            new = self.inplace(op, old, self.eval(s.value, fr, st), fr, st, s)
            self.lib.setitem(self, o, i, new, fr, st, t)
        else:
            raise Undecided("augmented assignment")
        return st

    def inplace(self, op, old, val, fr, st, node):
        if isinstance(old, Ref):
            r = st.rec(old)
            if isinstance(r, ListRec) and op == "Add" and r.kind == "list":
                el = self.iter_elems(val, fr, st, node, soft=True)
                r2 = r.copy()
                if el is None or r.elems is None:
                    r2.sym, r2.elems = Opaque("extended list"), None
                else:
                    r2.elems = r.elems + tuple(el)
                st.write(old, r2, "extend", self.where(node, fr))
                return old
            if isinstance(r, ArrRec):
                new = self.lib.binop(self, op, old, val, fr, st, node)
                self.lib.overwrite(self, old, new, fr, st, node, True)
                return old
            if isinstance(r, ObjRec):
                nm = "__i" + OPMETH.get(op, "??")[2:]
                f, _ = r.cls.lookup(nm) if r.cls else (None, None)
                if f is not None:
                    return self.call(self.getattr(old, nm, fr, st, node), [val], {}, fr, st, node)
            if isinstance(r, DictRec) and op in ("BitOr", "Sub", "BitAnd") and r.kind == "set":
                new = self.lib.binop(self, op, old, val, fr, st, node)
                st.write(old, st.rec(new), "update", self.where(node, fr))
                return old
        return self.lib.binop(self, op, old, val, fr, st, node)

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.locals[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr, st)
                i = self.eval(t.slice, fr, st)
                self.lib.delitem(self, o, i, fr, st, t)
            else:
                raise Undecided("del")
        return st

    def s_Global(self, s, fr, st):
        return st

    s_Nonlocal = s_Global

    def s_Return(self, s, fr, st):
        v = self.eval(s.value, fr, st) if s.value is not None else NONE
        fr.exits.append(("return", v, st, s))
        return None

    def s_Raise(self, s, fr, st):
        if s.exc is None:
            v = fr_cur_exc(fr)
            v = v if v is not None else ExcVal(BltV("RuntimeError"))
        else:
            v = self.eval(s.exc, fr, st)
            if isinstance(v, (ClassV, BltV)):
                v = self.call(v, [], {}, fr, st, s)
        fr.exits.append(("raise", v, st.copy(), s))
        return None

    def raise_now(self, name, fr, st, node, args=()):
        """unconditional exception of builtin class `name`"""
        fr.exits.append(("raise", ExcVal(BltV(name), args), st.copy(), node))
        raise Dead()

    def raise_if(self, cond, name, fr, st, node, args=()):
        d = st.decide(cond)
        if d is False:
            return
        if d is True:
            self.raise_now(name, fr, st, node, args)
        s2 = st.copy()
        s2.assume(cond, True)
        fr.exits.append(("raise", ExcVal(BltV(name), args), s2, node))
        st.assume(cond, False)

    def s_Assert(self, s, fr, st):
        c = self.truth(self.eval(s.test, fr, st), fr, st, s)
        self.raise_if(b_not(c), "AssertionError", fr, st, s)
        return st

    def s_If(self, s, fr, st):
        c = self.truth(self.eval(s.test, fr, st), fr, st, s)
        d = st.decide(c)
        if d is True:
            return self.exec_block(s.body, fr, st)
        if d is False:
            return self.exec_block(s.orelse, fr, st)
        s2 = st.copy()
        st.assume(c, True)
        s2.assume(c, False)
        a = self.exec_block(s.body, fr, st)
        b = self.exec_block(s.orelse, fr, s2)
        return self.join([x for x in (a, b) if x is not None])

    def join(self, states):
        if not states:
            return None
        return merge_states([(x, None) for x in states])[0]

    def s_FunctionDef(self, s, fr, st):
        f = self.make_func(s, fr, st)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, fr, st)
        self.store_name(s.name, f, fr, st)
        return st

    def make_func(self, node, fr, st, cls=None):
        a = node.args
        defaults = tuple(self.eval(d, fr, st) for d in a.defaults)
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.eval(d, fr, st)
        name = getattr(node, "name", "<lambda>")
        fr.escapes = True
        clo = fr.fid
        f = FuncV(node, fr.mod, cls or fr.cls, clo, defaults, kwd, fr.qual + "." + name)
        return f

    def decorate(self, d, f, fr, st):
        v = self.eval(d, fr, st)
        if isinstance(v, BltV) and v.name in ("property", "staticmethod", "classmethod"):
            return WrapV(v.name, f, ())
        if isinstance(v, ExtV) and v.name.split(".")[0] == "numba":
            return f
        if isinstance(v, App) and v.op == "decorator":
            if v.args[0] in ("numba",):
                if isinstance(d, ast.Call) and d.args and isinstance(f, FuncV):
                    sig = jit_signature(d.args[0])
                    if sig is not None:
                        self.jit_sigs[id(f.node)] = sig
                return f
            if v.args[0] in ("lru_cache", "cache"):
                return WrapV("cache", f, ())
            if v.args[0] == "wraps":
                return f
        if isinstance(v, ExtV) and v.name in ("functools.lru_cache", "functools.cache"):
            return WrapV("cache", f, ())
        if isinstance(v, ExtV) and v.name in ("functools.wraps", "contextlib.contextmanager", "abc.abstractmethod", "functools.cached_property"):
            return WrapV("property", f, ()) if v.name.endswith("cached_property") else f
        if isinstance(v, MethV) and v.name in ("setter", "getter", "deleter"):
            p = v.self_
            if v.name == "setter":
                return WrapV("property", p.f, (f,))
            return p
        if isinstance(v, ExtV):
            return Opaque("decorated by %s" % v.name)
        return self.call(v, [f], {}, fr, st, d)

    def s_ClassDef(self, s, fr, st):
        bases = [self.eval(b, fr, st) for b in s.bases]
        qual = fr.qual + "." + s.name
        info = ClassInfo(s.name, qual, fr.mod, s, bases, {})
        fid = "cls:%s:%d" % (qual, next(self._fid))
        cf = Frame(fid, fr.mod, parent=fr.fid if not fr.fid.startswith("mod:") else None, cls=info, qual=qual)
        cf.localnames = set()
        self.frames[fid] = cf
        st.locals[fid] = {}
        enum = any(isinstance(b, ExtV) and b.name in ("enum.Enum", "enum.IntEnum", "enum.Flag") for b in bases)
        info.enum = enum
        cnt = 0
        for b in s.body:
            if enum and isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                cnt += 1
                v = self.eval(b.value, cf, st)
                info.attrs[b.targets[0].id] = App("enum", (Const(qual), Const(b.targets[0].id), v), "enum")
                st.locals[fid][b.targets[0].id] = info.attrs[b.targets[0].id]
                continue
            r = self.exec_stmt(b, cf, st)
            if r is None:
                raise Undecided("class body")
            if r is not st:
                st.become(r)
        for k, v in st.locals[fid].items():
            info.attrs.setdefault(k, v)
            info.attrs[k] = v
        v = ClassV(info)
        for d in s.decorator_list:
            dv = self.eval(d, fr, st)
            if isinstance(dv, ExtV) and dv.name == "functools.total_ordering":
                self.lib.total_ordering(info)
            elif isinstance(dv, (FuncV,)):
                v = self.call(dv, [v], {}, fr, st, d)
            else:
                raise Undecided("class decorator")
        self.store_name(s.name, v, fr, st)
        return st

    def s_Import(self, s, fr, st):
        for a in s.names:
            self.import_mod(a.name, fr, st, s)
            if a.asname:
                v = self.modval(a.name)
                self.store_name(a.asname, v, fr, st)
            else:
                self.store_name(a.name.split(".")[0], self.modval(a.name.split(".")[0]), fr, st)
        return st

    def modval(self, name):
        if self.project.is_pkgpath(name):
            return ModV(name)
        return ExtV(name)

    def import_mod(self, name, fr, st, node):
        if self.project.has(name):
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                p = ".".join(parts[:i])
                if self.project.has(p):
                    self.sync_module(p, st)
                if i > 1:
                    parent = "mod:" + ".".join(parts[:i - 1])
                    if parent in st.locals:
                        st.locals[parent][parts[i - 1]] = ModV(p)
            return
        root = name.split(".")[0]
        if root == PKG:
            fr.exits.append(("raise", ExcVal(BltV("ModuleNotFoundError"), (Const(name),)), st.copy(), node))
            raise Dead()
        if not self.lib.external_module_exists(root):
            fr.exits.append(("raise", ExcVal(BltV("ModuleNotFoundError"), (Const(name),)), st.copy(), node))
            raise Dead()

    def sync_module(self, p, st):
        self.module(p)
        if st is not self.base:
            for k, v in self.base.locals.items():
                if k not in st.locals:
                    st.locals[k] = dict(v)
            for k, v in self.base.heap.items():
                st.heap.setdefault(k, v)

    def s_ImportFrom(self, s, fr, st):
        if s.level:
            m = self.project.modules[fr.mod]
            parts = fr.mod.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        else:
            base = s.module
        if not self.project.is_pkgpath(base):
            self.import_mod(base, fr, st, s)
            for a in s.names:
                if a.name == "*":
                    raise Undecided("star import from external module")
                self.store_name(a.asname or a.name, self.getattr(ExtV(base), a.name, fr, st, s), fr, st)
            return st
        self.import_mod(base, fr, st, s)
        if not self.project.has(base):
            for a in s.names:
                self.import_mod(base + "." + a.name, fr, st, s)
                self.store_name(a.asname or a.name, self.modval(base + "." + a.name), fr, st)
            return st
        ns = st.locals["mod:" + base]
        for a in s.names:
            if a.name == "*":
                al = ns.get("__all__")
                names = None
                if al is not None:
                    el = self.iter_elems(al, fr, st, s, soft=True)
                    if el is not None and all(isinstance(x, Const) for x in el):
                        names = [x.v for x in el]
                if names is None:
                    names = [k for k in ns if not k.startswith("_")]
                for n in names:
                    if n not in ns:
                        fr.exits.append(("raise", ExcVal(BltV("AttributeError"), (Const(n),)), st.copy(), s))
                        raise Dead()
                    self.store_name(n, ns[n], fr, st)
            else:
                if a.name not in ns:
                    if self.project.has(base + "." + a.name):
                        self.import_mod(base + "." + a.name, fr, st, s)
                        ns = st.locals["mod:" + base]
                        self.store_name(a.asname or a.name, ModV(base + "." + a.name), fr, st)
                        continue
                    fr.exits.append(("raise", ExcVal(BltV("ImportError"), (Const(a.name),)), st.copy(), s))
                    raise Dead()
                self.store_name(a.asname or a.name, ns[a.name], fr, st)
        return st

    # ---------------------------------------------------------------- loops
    def s_For(self, s, fr, st):
        it = self.eval(s.iter, fr, st)
        el = self.iter_elems(it, fr, st, s, soft=True)
        ctx = LoopCtx()
        if el is None:
            return self.havoc_loop(s, fr, st, it)
        if len(el) > MAXITER:
            raise Undecided("loop too long")
        fr.loops.append(ctx)
        try:
            cur = st
            for x in el:
                try:
                    self.assign(s.target, x, fr, cur)
                except Dead:
                    cur = None
                    break
                cur = self.exec_block(s.body, fr, cur)
                live = ([cur] if cur is not None else []) + ctx.continues
                ctx.continues = []
                cur = self.join(live)
                if cur is None:
                    break
        finally:
            fr.loops.pop()
        if cur is not None and s.orelse:
            cur = self.exec_block(s.orelse, fr, cur)
        return self.join(([cur] if cur is not None else []) + ctx.breaks)

    def s_While(self, s, fr, st):
        ctx = LoopCtx()
        fr.loops.append(ctx)
        done = []
        cur = st
        unknown = 0
        n = 0
        start = st.copy()
        nexits = len(fr.exits)
        try:
            while cur is not None:
                n += 1
                if n > MAXWHILE:
                    raise Undecided("while loop bound")
                c = self.truth(self.eval(s.test, fr, cur), fr, cur, s)
                d = cur.decide(c)
                if d is False:
                    done.append(cur)
                    cur = None
                    break
                if d is None:
                    unknown += 1
                    if unknown > 6:
                        del fr.exits[nexits:]
                        fr.loops.pop()
                        fr.loops.append(LoopCtx())
                        return self.havoc_loop(s, fr, start, None)
                    out = cur.copy()
                    out.assume(c, False)
                    done.append(out)
                    cur.assume(c, True)
                elif n > 40:
                    # unbounded with constant condition and undecided breaks
                    if ctx.breaks:
                        del fr.exits[nexits:]
                        return self.havoc_loop(s, fr, start, None)
                cur = self.exec_block(s.body, fr, cur)
                live = ([cur] if cur is not None else []) + ctx.continues
                ctx.continues = []
                cur = self.join(live)
        except Dead:
            pass
        finally:
            fr.loops.pop()
        out = []
        for d in done:
            if s.orelse:
                d = self.exec_block(s.orelse, fr, d)
            if d is not None:
                out.append(d)
        return self.join(out + ctx.breaks)

    def havoc_loop(self, s, fr, st, it):
        """sound summary of a loop the domain cannot unroll"""
        names, _, _ = assigned_names(ast.Module(body=s.body, type_ignores=[]))
        if isinstance(s, ast.For):
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            old = st.locals[fr.fid].get(n) if fr.fid in st.locals else None
            if isinstance(old, Ref):
                continue
            st.locals[fr.fid][n] = Opaque("loop variable %s" % n)
        body = st.copy()
        choice = Sym("loop%d" % next(self._fid), "bool")
        body.assume(choice, True)
        before = body.effects
        nloops = LoopCtx()
        fr.loops.append(nloops)
        try:
            if isinstance(s, ast.For):
                self.assign(s.target, self.elem_of(it, st), fr, body)
            else:
                self.truth(self.eval(s.test, fr, body), fr, body, s)
            res = self.exec_block(s.body, fr, body)
        except Dead:
            res = None
        finally:
            fr.loops.pop()
        outs = [x for x in [res] + nloops.continues + nloops.breaks if x is not None]
        written = {}
        for o in outs:
            for e in o.effects:
                if e not in before:
                    written[e[0]] = e
        for i, e in written.items():
            if i in st.heap:
                r = st.heap[i].copy()
                if isinstance(r, ListRec):
                    r.elems, r.sym = None, Opaque("list filled in a loop")
                elif isinstance(r, DictRec):
                    r.items, r.sym = None, Opaque("dict filled in a loop")
                elif isinstance(r, ArrRec):
                    r.shape = r.shape
                    r.elems, r.expr = None, Opaque("array filled in a loop", "ndarray")
                elif isinstance(r, ObjRec):
                    for f in r.fields:
                        r.fields[f] = Opaque("field changed in a loop")
                st.heap[i] = r
                st.effects = st.effects + (e,)
        for o in outs:
            for i, r in o.heap.items():
                st.heap.setdefault(i, r)
        for n in names:
            st.locals[fr.fid][n] = Opaque("loop variable %s" % n)
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not nloops.breaks:
            return None
        return st

    def elem_of(self, it, st):
        t = tyof(it)
        if isinstance(it, Ref):
            r = st.heap.get(it.id)
            if isinstance(r, ArrRec):
                return st.new(ArrRec(expr=Opaque("row", "ndarray"), base=it.id, owner="view"))
        if isinstance(it, App) and it.op == "range":
            return Opaque("element", "int")
        return Opaque("element")

    def s_Break(self, s, fr, st):
        fr.loops[-1].breaks.append(st)
        return None

    def s_Continue(self, s, fr, st):
        fr.loops[-1].continues.append(st)
        return None

    # ---------------------------------------------------------------- exceptions
    def s_Try(self, s, fr, st):
        mark = len(fr.exits)
        lmarks = [(c, len(c.breaks), len(c.continues)) for c in fr.loops]
        entry_effects = st.effects
        out = self.exec_block(s.body, fr, st)
        if out is not None and s.orelse:
            raised = fr.exits[mark:]
            del fr.exits[mark:]
            m2 = len(fr.exits)
            out = self.exec_block(s.orelse, fr, out)
            orelse_exits = fr.exits[m2:]
            del fr.exits[m2:]
        else:
            raised = fr.exits[mark:]
            del fr.exits[mark:]
            orelse_exits = []
        live = [out] if out is not None else []
        keep = []
        for e in raised:
            if e[0] != "raise":
                keep.append(e)
                continue
            handled = False
            for h in s.handlers:
                m = True
                if h.type is not None:
                    t = self.eval(h.type, fr, e[2])
                    m = self.exc_matches(e[1], t)
                if m is None:
                    raise Undecided("exception matching")
                if m:
                    hs = e[2]
                    if h.name:
                        self.store_name(h.name, e[1], fr, hs)
                    push_exc(fr, e[1])
                    r = self.exec_block(h.body, fr, hs)
                    pop_exc(fr)
                    if r is not None:
                        live.append(r)
                    handled = True
                    break
            if not handled:
                keep.append(e)
        fr.exits.extend(keep)
        fr.exits.extend(orelse_exits)
        res = self.join(live)
        if s.finalbody:
            pend = fr.exits[mark:]
            del fr.exits[mark:]
            if res is not None:
                res = self.exec_block(s.finalbody, fr, res)
            for e in pend:
                n0 = len(fr.exits)
                x = self.exec_block(s.finalbody, fr, e[2])
                if x is not None:
                    fr.exits.append((e[0], e[1], x, e[3]))
            for c, nb, nc in lmarks:
                for attr, n in (("breaks", nb), ("continues", nc)):
                    lst = getattr(c, attr)
                    new = lst[n:]
                    del lst[n:]
                    for x in new:
                        y = self.exec_block(s.finalbody, fr, x)
                        if y is not None:
                            lst.append(y)
        return res

    def exc_name(self, v):
        if isinstance(v, ExcVal):
            return v.cls.name
        if isinstance(v, (BltV, ExtV)):
            return v.name
        if isinstance(v, ClassV):
            return v.info.name
        if isinstance(v, Ref):
            for s in (self.base,):
                pass
            return getattr(v, "excname", None) or "exception"
        return "exception"

    def exc_class_names(self, v, st=None):
        """builtin ancestors + own name of an exception value"""
        if isinstance(v, ExcVal):
            c = getattr(builtins, v.cls.name, None)
            if v.cls.name == "LinAlgError":
                return ["LinAlgError", "ValueError", "Exception", "BaseException", "object"]
            return [k.__name__ for k in c.__mro__] if c else [v.cls.name]
        if isinstance(v, Ref) and st is not None:
            r = st.heap.get(v.id)
            if isinstance(r, ObjRec):
                names = [c.name for c in r.cls.mro()]
                for b in r.cls.ext_bases():
                    c = getattr(builtins, b, None)
                    names += [k.__name__ for k in c.__mro__] if c else [b]
                return names
        return ["?"]

    def exc_matches(self, v, t, st=None):
        if isinstance(t, Tup):
            r = [self.exc_matches(v, x) for x in t.items]
            return True if any(r) else (None if None in r else False)
        if isinstance(v, ExcVal):
            if isinstance(t, BltV):
                a, b = getattr(builtins, v.cls.name, None), getattr(builtins, t.name, None)
                if v.cls.name == "LinAlgError":
                    a = ValueError
                if a is None or b is None:
                    return None
                return issubclass(a, b)
            if isinstance(t, ClassV):
                return False
            if isinstance(t, ExtV) and t.name.split(".")[-1] == "LinAlgError":
                return v.cls.name == "LinAlgError"
            return None
        if isinstance(v, Ref):
            info = self._exc_info.get(v.id)
            if info is None:
                return None
            if isinstance(t, ClassV):
                return info.subclass_of(t.info)
            if isinstance(t, BltV):
                b = getattr(builtins, t.name)
                return any(issubclass(getattr(builtins, x), b) for x in info.ext_bases() if hasattr(builtins, x))
        return None

    _exc_info = {}

    def s_With(self, s, fr, st):
        cms = []
        for it in s.items:
            cm = self.eval(it.context_expr, fr, st)
            if isinstance(cm, Ref) and isinstance(st.rec(cm), ObjRec) and st.rec(cm).cls.lookup("__enter__")[0] is not None:
                v = self.call(self.getattr(cm, "__enter__", fr, st, s), [], {}, fr, st, s)
                cms.append(cm)
            else:
                v = Opaque("context manager") if not isinstance(cm, (Opaque, App)) else cm
                cms.append(None)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr, st)
        r = self.exec_block(s.body, fr, st)
        if r is not None:
            for cm in reversed(cms):
                if cm is not None:
                    self.call(self.getattr(cm, "__exit__", fr, r, s), [NONE, NONE, NONE], {}, fr, r, s)
        elif any(cms):
            raise Undecided("exit inside with")
        return r

    # ================================================================ assignment
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            el = self.iter_elems(v, fr, st, t, soft=True)
            if el is None:
                if star:
                    raise Undecided("starred unpacking of unknown sequence")
                el = [self.lib.getitem_soft(self, v, Const(i), fr, st, t, unpack=n) for i in range(n)]
            elif star:
                i = star[0]
                k = len(el) - (n - 1)
                if k < 0:
                    self.raise_now("ValueError", fr, st, t)
                el = list(el[:i]) + [st.new(ListRec(el[i:i + k]))] + list(el[i + k:])
            elif len(el) != n:
                self.raise_now("ValueError", fr, st, t)
            for x, y in zip(t.elts, el):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr, st), t.attr, v, fr, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            i = self.eval(t.slice, fr, st)
            self.lib.setitem(self, o, i, v, fr, st, t)
        else:
            raise Undecided("assignment target")

    def store_name(self, n, v, fr, st):
        if n in fr.globalnames:
            mf = "mod:" + fr.mod
            self.events.append(("global-store", fr.mod, n, v, fr.qual))
            st.locals[mf][n] = v
            st.effects = st.effects + ((mf + "." + n, "global", fr.qual),)
            return
        if n in fr.nonlocalnames:
            p = fr.parent
            while p is not None:
                if n in st.locals.get(p, {}):
                    st.locals[p][n] = v
                    return
                p = self.frames[p].parent
        st.locals.setdefault(fr.fid, {})[n] = v

    def load_name(self, n, fr, st, node):
        loc = st.locals.get(fr.fid)
        if loc is not None and n in loc and n not in fr.globalnames:
            v = loc[n]
            return self.check_bound(n, v, fr, st, node)
        if n in fr.localnames and n not in fr.globalnames:
            self.raise_now("UnboundLocalError", fr, st, node, (Const(n),))
        p = fr.parent
        while p is not None:
            d = st.locals.get(p)
            f = self.frames.get(p)
            if d is not None and n in d and not p.startswith("cls:"):
                return self.check_bound(n, d[n], fr, st, node)
            p = f.parent if f else None
        mf = "mod:" + fr.mod
        d = st.locals.get(mf)
        if d is not None and n in d:
            return d[n]
        if n in BUILTIN_NAMES:
            return self.lib.builtin(n)
        self.raise_now("NameError", fr, st, node, (Const(n),))

    def check_bound(self, n, v, fr, st, node):
        if v == UNBOUND:
            self.raise_now("UnboundLocalError", fr, st, node, (Const(n),))
        if isinstance(v, Ite) and (v.a == UNBOUND or v.b == UNBOUND):
            c = v.c if v.a == UNBOUND else b_not(v.c)
            self.raise_if(c, "UnboundLocalError", fr, st, node, (Const(n),))
            return v.b if v.a == UNBOUND else v.a
        return v

    # ================================================================ expressions
    def eval(self, e, fr, st):
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(e).__name__)
        return m(e, fr, st)

    def e_Constant(self, e, fr, st):
        return Const(e.value)

    def e_Name(self, e, fr, st):
        return self.load_name(e.id, fr, st, e)

    def e_Tuple(self, e, fr, st):
        return Tup(self.eval_star(e.elts, fr, st))

    def e_List(self, e, fr, st):
        return st.new(ListRec(self.eval_star(e.elts, fr, st), owner="fresh", site=self.where(e, fr)))

    def e_Set(self, e, fr, st):
        return self.lib.make_set(self, self.eval_star(e.elts, fr, st), fr, st, e)

    def eval_star(self, elts, fr, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr, st)
                el = self.iter_elems(v, fr, st, x)
                out.extend(el)
            else:
                out.append(self.eval(x, fr, st))
        return out

    def e_Dict(self, e, fr, st):
        ref = st.new(DictRec((), owner="fresh", site=self.where(e, fr)))
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, fr, st)
                r = st.rec(d) if isinstance(d, Ref) else None
                if not isinstance(r, DictRec) or r.items is None:
                    raise Undecided("dict unpacking")
                for kk, vv in r.items:
                    self.lib.setitem(self, ref, kk, vv, fr, st, e)
            else:
                kv = self.eval(k, fr, st)
                vv = self.eval(v, fr, st)
                self.lib.setitem(self, ref, kv, vv, fr, st, e)
        st.effects = tuple(x for x in st.effects if x[0] != ref.id)
        return ref

    def e_Attribute(self, e, fr, st):
        return self.getattr(self.eval(e.value, fr, st), e.attr, fr, st, e)

    def e_Subscript(self, e, fr, st):
        o = self.eval(e.value, fr, st)
        i = self.eval(e.slice, fr, st)
        return self.lib.getitem(self, o, i, fr, st, e)

    def e_Slice(self, e, fr, st):
        f = lambda x: NONE if x is None else self.eval(x, fr, st)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, fr, st):
        raise Undecided("starred expression")

    def e_NamedExpr(self, e, fr, st):
        v = self.eval(e.value, fr, st)
        self.assign(e.target, v, fr, st)
        return v

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(Const(v.value))
            else:
                x = self.eval(v.value, fr, st)
                spec = ""
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec, fr, st)
                    spec = sp.v if isinstance(sp, Const) else None
                conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
                parts.append(self.lib.fmt_piece(self, x, conv, spec, fr, st, e))
        return self.lib.strcat(parts)

    def e_FormattedValue(self, e, fr, st):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), fr, st)

    def e_Lambda(self, e, fr, st):
        return self.make_func(e, fr, st)

    def e_IfExp(self, e, fr, st):
        c = self.truth(self.eval(e.test, fr, st), fr, st, e)
        return self.fork(c, lambda s: self.eval(e.body, fr, s), lambda s: self.eval(e.orelse, fr, s), st)

    def fork(self, c, fa, fb, st):
        d = st.decide(c)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        sa, sb = st.copy(), st.copy()
        sa.assume(c, True)
        sb.assume(c, False)
        outs = []
        for s, f in ((sa, fa), (sb, fb)):
            try:
                outs.append((s, f(s)))
            except Dead:
                pass
        s, v = merge_states(outs)
        st.become(s)
        return v

    def e_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.eval(e.values[i], fr, s)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, fr, s, e)
            if isand:
                if is_bool(v):
                    return self.fork(c, lambda t: go(i + 1, t), lambda t: FALSE, s)
                return self.fork(c, lambda t: go(i + 1, t), lambda t: v, s)
            if is_bool(v):
                return self.fork(c, lambda t: TRUE, lambda t: go(i + 1, t), s)
            return self.fork(c, lambda t: v, lambda t: go(i + 1, t), s)
        return go(0, st)

    def e_UnaryOp(self, e, fr, st):
        v = self.eval(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return b_not(self.truth(v, fr, st, e))
        return self.lib.unop(self, type(e.op).__name__, v, fr, st, e)

    def e_BinOp(self, e, fr, st):
        a = self.eval(e.left, fr, st)
        b = self.eval(e.right, fr, st)
        return self.lib.binop(self, type(e.op).__name__, a, b, fr, st, e)

    def e_Compare(self, e, fr, st):
        left = self.eval(e.left, fr, st)

        def go(i, l, s):
            r = self.eval(e.comparators[i], fr, s)
            v = self.compare(type(e.ops[i]).__name__, l, r, fr, s, e)
            if i == len(e.ops) - 1:
                return v
            c = self.truth(v, fr, s, e)
            return self.fork(c, lambda t: go(i + 1, r, t), lambda t: v if not is_bool(v) else FALSE, s)
        return go(0, left, st)

    def compare(self, op, a, b, fr, st, node):
        if op == "Is":
            return self.lib.identity_eq(self, a, b, st)
        if op == "IsNot":
            return b_not(self.lib.identity_eq(self, a, b, st))
        if op == "In":
            return self.lib.contains(self, b, a, fr, st, node)
        if op == "NotIn":
            return b_not(self.truth(self.lib.contains(self, b, a, fr, st, node), fr, st, node))
        return self.lib.rich_compare(self, {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}[op], a, b, fr, st, node)

    def comp(self, e, fr, st, emit):
        """run the generators of a comprehension in a child scope"""
        fid = "comp%d" % next(self._fid)
        cf = Frame(fid, fr.mod, parent=fr.fid, cls=fr.cls, qual=fr.qual, depth=fr.depth)
        cf.selfval = fr.selfval
        cf.exits = fr.exits
        cf.loops = fr.loops
        cf.globalnames = set()
        self.frames[fid] = cf
        st.locals[fid] = {}

        def go(i, s):
            if i == len(e.generators):
                emit(cf, s)
                return
            g = e.generators[i]
            it = self.eval(g.iter, cf if i else fr, s)
            el = self.iter_elems(it, fr, s, e, soft=True)
            if el is None:
                raise UnknownIter(it)
            if len(el) > MAXITER:
                raise Undecided("comprehension too long")
            for x in el:
                self.assign(g.target, x, cf, s)
                ok = True
                conds = list(g.ifs)

                def run(j, s):
                    if j == len(conds):
                        go(i + 1, s)
                        return
                    c = self.truth(self.eval(conds[j], cf, s), fr, s, e)
                    d = s.decide(c)
                    if d is True:
                        run(j + 1, s)
                    elif d is None:
                        raise UnknownFilter()
                run(0, s)
        try:
            go(0, st)
        finally:
            st.locals.pop(fid, None)
        return cf

    def e_ListComp(self, e, fr, st):
        out = []
        save = st.copy()
        mark = len(fr.exits)
        try:
            self.comp(e, fr, st, lambda cf, s: out.append(self.eval(e.elt, cf, s)))
        except UnknownIter as u:
            st.become(save)
            del fr.exits[mark:]
            return st.new(ListRec(None, self.sym_comp(e, u.it, fr, st), owner="fresh"))
        except UnknownFilter:
            st.become(save)
            del fr.exits[mark:]
            return st.new(ListRec(None, Opaque("filtered comprehension"), owner="fresh"))
        return st.new(ListRec(out, owner="fresh", site=self.where(e, fr)))

    def sym_comp(self, e, it, fr, st):
        """[f(x) for x in S] with unknown S: map(f, S) with a bound variable"""
        if len(e.generators) != 1 or e.generators[0].ifs or isinstance(e, ast.DictComp):
            return Opaque("comprehension over unknown sequence")
        fid = "comp%d" % next(self._fid)
        cf = Frame(fid, fr.mod, parent=fr.fid, cls=fr.cls, qual=fr.qual, depth=fr.depth)
        cf.exits = fr.exits
        self.frames[fid] = cf
        st.locals[fid] = {}
        bv = Sym("bound", "any")
        try:
            self.assign(e.generators[0].target, bv, cf, st)
            v = self.freeze(self.eval(e.elt, cf, st), st)
            return App("map", (v, self.freeze(it, st)), "seq")
        finally:
            st.locals.pop(fid, None)

    def e_GeneratorExp(self, e, fr, st):
        r = self.e_ListComp(e, fr, st)
        x = st.rec(r).copy()
        x.kind = "iter"
        st.heap[r.id] = x
        return r

    def e_SetComp(self, e, fr, st):
        r = self.e_ListComp(e, fr, st)
        el = st.rec(r).elems
        if el is None:
            return st.new(DictRec(None, Opaque("set"), kind="set", owner="fresh"))
        return self.lib.make_set(self, el, fr, st, e)

    def e_DictComp(self, e, fr, st):
        ref = st.new(DictRec((), owner="fresh"))
        save = st.copy()
        mark = len(fr.exits)

        def emit(cf, s):
            k = self.eval(e.key, cf, s)
            v = self.eval(e.value, cf, s)
            self.lib.setitem(self, ref, k, v, fr, s, e)
        try:
            self.comp(e, fr, st, emit)
        except (UnknownIter, UnknownFilter):
            st.become(save)
            del fr.exits[mark:]
            return st.new(DictRec(None, Opaque("dict comprehension"), owner="fresh"))
        st.effects = tuple(x for x in st.effects if x[0] != ref.id)
        return ref

    def e_Yield(self, e, fr, st):
        v = self.eval(e.value, fr, st) if e.value is not None else NONE
        f = fr
        r = st.locals[f.fid]["<yield>"]
        rec = st.rec(r).copy()
        rec.elems = rec.elems + (v,) if rec.elems is not None else None
        st.heap[r.id] = rec
        return NONE

    def e_YieldFrom(self, e, fr, st):
        el = self.iter_elems(self.eval(e.value, fr, st), fr, st, e)
        r = st.locals[fr.fid]["<yield>"]
        rec = st.rec(r).copy()
        rec.elems = rec.elems + tuple(el)
        st.heap[r.id] = rec
        return NONE

    def e_Call(self, e, fr, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return App("super", (Const(fr.cls.qual if fr.cls else ""), fr.selfval or NONE, ClassV(fr.cls)), "super")
        f = self.eval(e.func, fr, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, st)
                el = self.iter_elems(v, fr, st, a, soft=True)
                if el is None:
                    args.append(App("star", (self.freeze(v, st),)))
                else:
                    args.extend(el)
            else:
                args.append(self.eval(a, fr, st))
        for k in e.keywords:
            v = self.eval(k.value, fr, st)
            if k.arg is None:
                r = st.rec(v) if isinstance(v, Ref) else None
                if isinstance(r, DictRec) and r.items is not None and all(isinstance(x, Const) for x, _ in r.items):
                    for x, y in r.items:
                        kw[x.v] = y
                elif isinstance(f, (ExtV, MethV, Opaque, App)):
                    kw["**"] = v
                else:
                    raise Undecided("** of unknown mapping")
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, fr, st, e)

    # ================================================================ calls
    def call(self, f, args, kw, fr, st, node=None):
        self.tick()
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kw, fr, st, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, fr, st, node)
        if isinstance(f, HookV):
            return f.fn(self, args, kw, fr, st, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, fr, st, node)
        if isinstance(f, WrapV):
            if f.kind in ("staticmethod",):
                return self.call(f.f, args, kw, fr, st, node)
            if f.kind == "partial":
                n = f.extra[0].v
                pos = list(f.extra[1:1 + n])
                kws = {k.v: v for k, v in zip(f.extra[1 + n::2], f.extra[2 + n::2])}
                kws.update(kw)
                return self.call(f.f, pos + list(args), kws, fr, st, node)
            if f.kind == "cache":
                self.events.append(("cached-call", f.f.qual))
                v = self.call(f.f, args, kw, fr, st, node)
                if isinstance(v, Ref) and isinstance(st.heap.get(v.id), (ListRec, DictRec, ArrRec)):
                    r = st.heap[v.id].copy()
                    r.owner = "global:cache of " + f.f.qual
                    st.heap[v.id] = r
                return v
        if isinstance(f, Ite):
            return self.fork(f.c, lambda s: self.call(f.a, args, kw, fr, s, node), lambda s: self.call(f.b, args, kw, fr, s, node), st)
        if isinstance(f, Ref):
            r = st.heap.get(f.id)
            if isinstance(r, ObjRec):
                return self.call(self.getattr(f, "__call__", fr, st, node), args, kw, fr, st, node)
        if isinstance(f, Const):
            self.raise_now("TypeError", fr, st, node)
        return self.lib.call_builtin(self, f, args, kw, fr, st, node)

    def scope(self, node):
        s = self._scopes.get(id(node))
        if s is None:
            if isinstance(node, ast.Lambda):
                s = (set(), set(), set(), False)
            else:
                a, g, n = assigned_names(node)
                s = (a, g, n, is_generator(node))
            self._scopes[id(node)] = s
        return s

    def bind(self, f, args, kw, fr, st, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kw = dict(kw)
        if any(isinstance(x, App) and x.op == "star" for x in args) or "**" in kw:
            raise Undecided("unknown argument list")
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_now("TypeError", fr, st, node, (Const("too many arguments for " + f.qual),))
            loc[a.vararg.arg] = Tup(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = Tup(())
        for n, v in zip(pos, args):
            loc[n] = v
        extra = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                if k in loc:
                    self.raise_now("TypeError", fr, st, node, (Const("duplicate argument " + k),))
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_now("TypeError", fr, st, node, (Const("unexpected keyword %s for %s" % (k, f.qual)),))
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            loc.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg in f.kwdefaults:
                    loc[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_now("TypeError", fr, st, node, (Const("missing argument %s of %s" % (x.arg, f.qual)),))
        for n in pos:
            if n not in loc:
                self.raise_now("TypeError", fr, st, node, (Const("missing argument %s of %s" % (n, f.qual)),))
        if a.kwarg is not None:
            ref = st.new(DictRec(tuple((Const(k), v) for k, v in extra.items()), owner="fresh"))
            loc[a.kwarg.arg] = ref
        return loc

    def call_func(self, f, args, kw, fr, st, node):
        if fr.depth > MAXDEPTH:
            raise Undecided("call depth")
        loc = self.bind(f, args, kw, fr, st, node)
        if id(f.node) in self.jit_sigs:
            for (ty, nd), (_, v) in zip(self.jit_sigs[id(f.node)], loc.items()):
                r = st.heap.get(v.id) if isinstance(v, Ref) else None
                if nd and isinstance(r, ArrRec):
                    root = st.heap.get(self.lib.root_id(st, v.id))
                    k = root.dtype.args[0].v if isinstance(root.dtype, App) and root.dtype.op == "inferred_dtype" else self.lib.arr_kind(st, v)
                    want = self.lib.dtype_kind(ExtV(ty))
                    if k is not None and want is not None and k != want or r.shape is not None and len(r.shape) != nd:
                        self.raise_now("TypeError", fr, st, node, (Const("no matching definition of " + f.name),))
        fid = "f%d:%s" % (next(self._fid), f.name)
        names, glob, nonl, gen = self.scope(f.node)
        par = f.closure if f.closure and not f.closure.startswith(("mod:", "cls:")) else (
            self.frames[f.closure].parent if f.closure and f.closure.startswith("cls:") else None)
        nf = Frame(fid, f.mod, parent=par, localnames=names | set(loc), globalnames=glob, cls=f.cls, qual=f.qual, depth=fr.depth + 1)
        nf.nonlocalnames = nonl
        self.frames[fid] = nf
        self.analysed.add(f.qual)
        ar = f.node.args
        first = (ar.posonlyargs + ar.args)
        if first and f.cls is not None:
            nf.selfval = loc.get(first[0].arg)
        st.locals[fid] = loc
        if isinstance(f.node, ast.Lambda):
            try:
                v = self.eval(f.node.body, nf, st)
            finally:
                fr.exits.extend(e for e in nf.exits if e[0] == "raise")
            if not nf.escapes:
                st.locals.pop(fid, None)
            return v
        if gen:
            loc["<yield>"] = st.new(ListRec((), owner="fresh", kind="iter"))
        out = self.exec_block(f.node.body, nf, st)
        rets = []
        for kind, v, s, n in nf.exits:
            if kind == "return":
                rets.append((s, v))
            else:
                s.locals.pop(fid, None) if not nf.escapes else None
                fr.exits.append((kind, v, s, n))
        if out is not None:
            rets.append((out, NONE))
        if gen:
            rets = [(s, s.locals[fid]["<yield>"]) for s, v in rets]
        if not rets:
            raise Dead()
        s, v = merge_states(rets)
        if v is None:
            v = NONE
        st.become(s)
        if not nf.escapes:
            st.locals.pop(fid, None)
            self.frames.pop(fid, None)
        return v

    def instantiate(self, c, args, kw, fr, st, node):
        info = c.info
        if info.enum:
            raise Undecided("enum construction")
        ext = info.ext_bases()
        isexc = any(isinstance(getattr(builtins, b, None), type) and issubclass(getattr(builtins, b), BaseException) for b in ext)
        ref = st.new(ObjRec(info, {}, owner="fresh", site=self.where(node, fr)))
        if isexc:
            self._exc_info[ref.id] = info
        init, _ = info.lookup("__init__")
        if info.lookup("__new__")[0] is not None:
            raise Undecided("__new__")
        if init is not None:
            self.call(init, [ref] + list(args), kw, fr, st, node)
        elif not isexc and (args or kw) and not ext:
            self.raise_now("TypeError", fr, st, node)
        return ref

    # ================================================================ attributes
    def getattr(self, o, name, fr, st, node, default=None):
        if isinstance(o, Ref):
            r = st.rec(o)
            if isinstance(r, ObjRec):
                a, owner = r.cls.lookup(name)
                if isinstance(a, WrapV) and a.kind == "property":
                    return self.call(a.f, [o], {}, fr, st, node)
                if name in r.fields:
                    v = r.fields[name]
                    if v == UNBOUND or (isinstance(v, Ite) and (v.a == UNBOUND or v.b == UNBOUND)):
                        c = TRUE if v == UNBOUND else (v.c if v.a == UNBOUND else b_not(v.c))
                        self.raise_if(c, "AttributeError", fr, st, node, (Const(name),))
                        return v.b if v.a == UNBOUND else v.a
                    return v
                if a is not None:
                    if isinstance(a, FuncV):
                        return BoundV(a, o)
                    if isinstance(a, WrapV):
                        if a.kind == "staticmethod":
                            return a.f
                        if a.kind == "classmethod":
                            return BoundV(a.f, ClassV(r.cls))
                        if a.kind == "cache":
                            return BoundV(a, o)
                    if isinstance(a, HookV):
                        return BoundV(a, o)
                    return a
                if name == "__class__":
                    return ClassV(r.cls)
                if name == "__dict__":
                    return Opaque("__dict__")
                if name in ("__hash__", "__eq__", "__ne__", "__str__", "__repr__", "__init__", "__setattr__"):
                    return MethV(o, name)
                ga, _ = r.cls.lookup("__getattr__")
                if ga is not None:
                    return self.call(ga, [o, Const(name)], {}, fr, st, node)
                if r.cls.ext_bases():
                    return App("attr", (o, Const(name)))
                if default is not None:
                    return default
                self.raise_now("AttributeError", fr, st, node, (Const(name),))
        if isinstance(o, ClassV):
            if name in ("__name__", "__qualname__"):
                return Const(o.info.name)
            a, owner = o.info.lookup(name)
            if a is None:
                if name == "__members__" or o.info.ext_bases():
                    return Opaque("class attribute")
                if default is not None:
                    return default
                if name in ("__eq__", "__hash__", "__str__", "__repr__", "__init__", "__lt__", "__ne__"):
                    return App("objectmeth", (Const(name),))
                self.raise_now("AttributeError", fr, st, node, (Const(name),))
            if isinstance(a, WrapV) and a.kind == "staticmethod":
                return a.f
            if isinstance(a, WrapV) and a.kind == "classmethod":
                return BoundV(a.f, o)
            return a
        if isinstance(o, ModV):
            self.sync_module(o.name, st) if self.project.has(o.name) else None
            d = st.locals.get("mod:" + o.name, {})
            if name in d:
                return d[name]
            if self.project.is_pkgpath(o.name + "." + name):
                if ("mod:" + o.name + "." + name) in st.locals:
                    return ModV(o.name + "." + name)
            self.raise_now("AttributeError", fr, st, node, (Const(name),))
        if isinstance(o, App) and o.op == "super":
            cls = o.args[2].info
            sv = o.args[1]
            if isinstance(sv, Ref) and isinstance(st.rec(sv), ObjRec):
                mro = st.rec(sv).cls.mro()
            elif isinstance(sv, ClassV):
                mro = sv.info.mro()
            else:
                raise Undecided("super()")
            i = [k for k, c in enumerate(mro) if c.qual == cls.qual]
            for c in mro[i[0] + 1:] if i else []:
                if name in c.attrs:
                    a = c.attrs[name]
                    if isinstance(a, FuncV):
                        return BoundV(a, sv)
                    if isinstance(a, WrapV) and a.kind == "property":
                        return self.call(a.f, [sv], {}, fr, st, node)
                    if isinstance(a, WrapV) and a.kind == "staticmethod":
                        return a.f
                    if isinstance(a, WrapV) and a.kind == "classmethod":
                        return BoundV(a.f, sv)
                    return a
            return MethV(sv, name)
        if isinstance(o, Ite):
            return self.fork(o.c, lambda s: self.getattr(o.a, name, fr, s, node, default), lambda s: self.getattr(o.b, name, fr, s, node, default), st)
        return self.lib.getattr_builtin(self, o, name, fr, st, node, default)

    def setattr(self, o, name, v, fr, st, node):
        if isinstance(o, Ref) and isinstance(st.rec(o), ObjRec):
            r = st.rec(o)
            a, _ = r.cls.lookup(name)
            if isinstance(a, WrapV) and a.kind == "property":
                if not a.extra:
                    self.raise_now("AttributeError", fr, st, node, (Const(name),))
                self.call(a.extra[0], [o, v], {}, fr, st, node)
                return
            sa, _ = r.cls.lookup("__setattr__")
            if sa is not None:
                self.call(sa, [o, Const(name), v], {}, fr, st, node)
                return
            sl, _ = r.cls.lookup("__slots__")
            r2 = r.copy()
            r2.fields[name] = v
            st.write(o, r2, "field:" + name, self.where(node, fr))
            return
        if isinstance(o, Ref) and isinstance(st.rec(o), ArrRec):
            if name in ("shape", "flags"):
                st.write(o, ArrRec(expr=Opaque("reshaped", "ndarray"), owner=st.rec(o).owner), "attr:" + name, self.where(node, fr))
                return
        if isinstance(o, Ite):
            self.fork(o.c, lambda s: self.setattr(o.a, name, v, fr, s, node) or NONE, lambda s: self.setattr(o.b, name, v, fr, s, node) or NONE, st)
            return
        if isinstance(o, ModV):
            st.locals["mod:" + o.name][name] = v
            st.effects = st.effects + (("mod:%s.%s" % (o.name, name), "global", fr.qual),)
            return
        if isinstance(o, ExtV):
            st.effects = st.effects + (("ext:%s.%s" % (o.name, name), "external", fr.qual),)
            st.locals.setdefault("ext:" + o.name, {})[name] = v
            return
        if isinstance(o, ClassV):
            st.effects = st.effects + (("cls:%s.%s" % (o.info.qual, name), "classattr", fr.qual),)
            return
        if isinstance(o, (FuncV,)):
            return
        if isinstance(o, (Opaque, App, Sym, MethV)):
            return
        self.raise_now("AttributeError", fr, st, node, (Const(name),))

    # ================================================================ helpers
    def where(self, node, fr):
        m = self.project.modules.get(fr.mod)
        return "%s:%s in %s" % (m.rel if m else fr.mod, getattr(node, "lineno", "?"), fr.qual)

    def truth(self, v, fr, st, node):
        return self.lib.truth(self, v, fr, st, node)

    def iter_elems(self, v, fr, st, node, soft=False):
        """list of element values, or None (soft) when the shape is unknown"""
        r = self.lib.iter_elems(self, v, fr, st, node)
        if r is None and not soft:
            raise Undecided("iteration over unknown sequence")
        return r

    def freeze(self, v, st):
        return self.lib.freeze(self, v, st)

    # ---------------------------------------------------------------- analysis entry
    def run(self, f, args, kw=None, st=None, mod=None):
        """call f in a fresh frame; returns Outcome"""
        st = st or self.fresh()
        fr = self.top(mod)
        self.steps = 0
        try:
            v = self.call(f, list(args), dict(kw or {}), fr, st)
            ok = True
        except Dead:
            v, ok = None, False
        return Outcome(v if ok else None, st if ok else None, [(e[1], e[2], e[3]) for e in fr.exits if e[0] == "raise"], self)

    def meth(self, obj, name, args=(), kw=None, st=None):
        fr = self.top()
        self.steps = 0
        try:
            f = self.getattr(obj, name, fr, st, None)
            v = self.call(f, list(args), dict(kw or {}), fr, st)
            ok = True
        except Dead:
            v, ok = None, False
        return Outcome(v if ok else None, st if ok else None, [(e[1], e[2], e[3]) for e in fr.exits if e[0] == "raise"], self)

    def attr(self, obj, name, st):
        fr = self.top()
        self.steps = 0
        try:
            v = self.getattr(obj, name, fr, st, None)
            ok = True
        except Dead:
            v, ok = None, False
        return Outcome(v if ok else None, st if ok else None, [(e[1], e[2], e[3]) for e in fr.exits if e[0] == "raise"], self)


class Outcome:
    def __init__(self, value, st, raises, ip):
        self.value, self.st, self.raises, self.ip = value, st, raises, ip

    @property
    def ok(self):
        return self.value is not None

    def exc_names(self):
        out = []
        for v, s, n in self.raises:
            out.append(self.ip.exc_class_names(v, s))
        return out

    def exc_short(self):
        return sorted({x[0] for x in self.exc_names()})


class UnknownIter(Exception):
    def __init__(self, it):
        self.it = it


class UnknownFilter(Exception):
    pass


_EXC = {}


def push_exc(fr, v):
    _EXC.setdefault(fr.fid, []).append(v)


def pop_exc(fr):
    _EXC[fr.fid].pop()


def fr_cur_exc(fr):
    l = _EXC.get(fr.fid)
    return l[-1] if l else None


OPMETH = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__",
          "FloorDiv": "__floordiv__", "Mod": "__mod__", "Pow": "__pow__", "LShift": "__lshift__", "RShift": "__rshift__",
          "BitOr": "__or__", "BitAnd": "__and__", "BitXor": "__xor__"}
