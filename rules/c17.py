"""C17: every published name exists, and no code path uses an undefined name."""
import ast
import builtins
import enum

from hpa import names as N
from .common import *

EXPL = ("Name resolution and path-sensitive definite-assignment analysis (paths distinguished by the conditions met so far, loops entered zero or more times, exception edges into handlers) over the syntax tree of every module of the "
        "package including demos, tools and function-level imports; every import statement is resolved against the package's modules or the installed libraries, every attribute chain that starts at an imported module or class is "
        "resolved, every self.<name> is resolved against the class hierarchy and against the assignments of its constructor; every module is abstractly evaluated and every name in __all__ and in the published lists looked up.")

ENUM_ATTRS = set(dir(enum.Enum)) | {"name", "value", "__members__", "_name_", "_value_"}
OBJ_ATTRS = set(dir(object)) | {"__name__", "__qualname__", "__module__", "__dict__", "__mro__", "__bases__", "__doc__", "mro", "__subclasses__", "__annotations__", "__weakref__", "__class__"}


# ---------------------------------------------------------------------- classes of the package, from their syntax trees
class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.bases, self.ext = mod, node, [], []
        self.funcs = [s for s in node.body if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))]      # a property's functions share one name
        self.methods = {s.name: s for s in self.funcs}
        self.level, _, _ = N.bound_in(node.body)
        self.stored = set()
        self.dynamic = False
        self.given = set()        # assigned by code of the module to objects that may be instances
        for m in self.funcs:
            me = self_name(m)
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id in (me, "cls"):
                    self.stored.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" or isinstance(x, ast.Attribute) and x.attr in ("__dict__",) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "vars":
                    self.dynamic = True
            if m.name in ("__getattr__", "__getattribute__"):
                self.dynamic = True

    def mro(self):
        out = [self]
        for b in self.bases:
            out += [x for x in b.mro() if x not in out]
        return out

    def known(self):
        """attribute names of instances, or None when open"""
        out = set(OBJ_ATTRS)
        for c in self.mro():
            if c.dynamic:
                return None
            for e in c.ext:
                if e == "Enum":
                    out |= ENUM_ATTRS
                elif e == "Exception" or isinstance(getattr(builtins, e, None), type):
                    out |= set(dir(getattr(builtins, e)))
                elif e not in ("object", "ABC"):
                    return None
            out |= c.level | c.stored | c.given
        return out


def self_name(f):
    a = f.args.posonlyargs + f.args.args
    deco = {ast.unparse(d) for d in f.decorator_list}
    if not a or "staticmethod" in deco:
        return None
    return a[0].arg


def classes(project):
    out = {}
    for m in project.modules.values():
        for s in ast.walk(m.tree):
            if isinstance(s, ast.ClassDef):
                out[m.name, s.name] = Cls(m, s)
    helpers = {}              # functions of the package, outside the classes, that store attributes on a parameter
    for m in project.modules.values():
        inside = {id(y) for s in ast.walk(m.tree) if isinstance(s, ast.ClassDef) for y in ast.walk(s)}
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef) and id(f) not in inside:
                pars = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
                helpers.setdefault(f.name, set()).update(x.attr for x in ast.walk(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                                                         and isinstance(x.value, ast.Name) and x.value.id in pars)
    for (mn, _), k in out.items():
        called = set()
        for f in k.funcs:
            me = self_name(f)
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id in (me, "cls") for a in list(x.args) + [w.value for w in x.keywords]):
                    n = x.func.id if isinstance(x.func, ast.Name) else getattr(x.func, "attr", None)
                    called |= helpers.get(n, set())
        k.given = called |  {x.attr for x in ast.walk(k.mod.tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                   and isinstance(x.value, ast.Name) and x.value.id not in ("self", "cls")}
    return out


def resolve_class(project, cl, mod, name, depth=0):
    """class that a name means at module level of `mod`"""
    if (mod.name, name) in cl:
        return cl[mod.name, name]
    if depth > 8:
        return None
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.ImportFrom):
            t = N.import_target(mod, s)
            if t in project.modules:
                for a in s.names:
                    if (a.asname or a.name) == name or a.name == "*":
                        c = resolve_class(project, cl, project.modules[t], name if a.name == "*" else a.name, depth + 1)
                        if c:
                            return c
    return None


# ---------------------------------------------------------------------- constructor: attributes assigned on every path
class InitFlow(N.Flow):
    """definite assignment of self.<attr> inside one method"""

    def __init__(self, owner, me, cls, report):
        super().__init__(owner, set(), "")
        self.me, self.cls, self.report = me, cls, report
        self.nested = {}          # local functions of the constructor: the attributes they assign
        always = set(OBJ_ATTRS)
        for c in cls.mro():
            always |= c.level
        self.always = always

    def load(self, n, ps, new):
        pass

    def uses(self, e, ps, inner0=frozenset()):
        if e is None:
            return set()
        for x in walk_shallow(e):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == self.me:
                if isinstance(x.ctx, ast.Load) and x.attr not in self.always and not isinstance(getattr(x, "_callee", None), ast.Call):
                    if ps and any(x.attr not in p.names for p in ps):
                        self.report(x, all(x.attr not in p.names for p in ps))
                        for p in ps:
                            p.names = p.names | {x.attr}
        new = set()
        for x in walk_shallow(e):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                v = x.func.value
                if isinstance(v, ast.Name) and v.id == self.me or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super" or \
                        any(isinstance(a, ast.Name) and a.id == self.me for a in x.args):
                    new |= self.method_stores(x.func.attr)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    any(isinstance(a, ast.Name) and a.id == self.me for a in list(x.args) + [k.value for k in x.keywords]):
                new |= self.cls.given | self.nested.get(x.func.id, set())       # a helper of the module given the instance may set it up
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.nested:
                new |= self.nested[x.id]
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == self.me and isinstance(x.ctx, ast.Load):
                new |= self.method_stores(x.attr)
        for p in ps:
            p.names = p.names | new
        return set()

    def method_stores(self, name, seen=None):
        seen = seen if seen is not None else set()
        out = set()
        for c in self.cls.mro():
            for m in c.funcs:
                if m.name != name or (c, m) in seen:
                    continue
                seen.add((c, m))
                me = self_name(m)
                for x in ast.walk(m):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                        if isinstance(x.ctx, ast.Store):
                            out.add(x.attr)
                        out |= self.method_stores(x.attr, seen)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Call) and ast.unparse(x.func.value.func) == "super":
                        out |= self.method_stores(x.func.attr, seen)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and any(isinstance(a, ast.Name) and a.id == me for a in x.args):
                        out |= c.given
        return out

    def bind(self, ps, names):
        # local names only matter for the remembered conditions
        names = set(names)
        return [N.Path(p.names, {k: v for k, v in p.conds.items() if not (names & N.words(k))}) for p in ps]

    def unbind(self, ps, names):
        return self.bind(ps, names)

    def uses_target(self, t, ps):
        super().uses_target(t, ps)
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == self.me:
                for p in ps:
                    p.names = p.names | {n.attr} | self.method_stores(n.attr)

    def stmt(self, s, ps):
        ps = [N.Path(p.names, p.conds) for p in ps]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Attribute):
            load = ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target)
            self.uses(load, ps)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return ps
        if isinstance(s, ast.Return):
            self.uses(s.value, ps)
            self.ends.extend(ps)
            return []
        return super().stmt(s, ps)


def walk_shallow(e):
    """nodes of an expression evaluated unconditionally or not, outside lambdas"""
    stack = [e]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, ast.Lambda):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Null:
    """stands for the name checker where only attributes matter"""
    def nested(self, *a):
        pass

    def klass(self, *a):
        pass

    def star(self, s):
        return []

    def submodule(self, s):
        return []


def guarded(fn, node):
    """is the node inside any conditional construct of the function (or after a condition that returns)?"""
    def find(n, g):
        if n is node:
            return g
        for field, val in ast.iter_fields(n):
            for x in (val if isinstance(val, list) else [val]):
                if isinstance(x, ast.AST):
                    r = find(x, g or isinstance(n, (ast.If, ast.Try, ast.IfExp, ast.BoolOp, ast.While, ast.For, ast.ExceptHandler)))
                    if r is not None:
                        return r
        return None
    return find(fn, False)


# ----------------------------------------------------------------------
def check(c):
    c.rule("module-import", "abstract evaluation of the module's top level ends without an exception")
    c.rule("published", "every name in __all__, and every name listed as available by the package documentation, is bound in the module")
    c.rule("imports", "every imported module exists and defines the imported name (package modules and installed libraries)")
    c.rule("definite-assignment", "on every path through the function, every name used has been bound in the scope it resolves to")
    c.rule("attribute-chain", "every attribute reached from an imported module, or from a class of the package, exists")
    c.rule("self-attribute", "every attribute read from self is defined by the class hierarchy, and assigned on every path of the constructor before it is read")
    P = c.ip.project
    base = c.fresh()
    for name, err in P.errors:
        c.add("module-import", name, False, name, "syntax error: " + err)
    errs = {}
    for name, line, exc, val in c.ip.module_errors:
        errs.setdefault(name, (line, exc))

    def ns(m):
        return base.locals.get("mod:" + m)

    def exported(m):
        d = ns(m)
        if d is None or "__all__" not in d:
            return None
        v = d["__all__"]
        rec = base.rec(v) if isinstance(v, Ref) else None
        el = rec.elems if rec is not None and getattr(rec, "elems", None) is not None else v.items if isinstance(v, Tup) else None
        if el is None or not all(isinstance(x, Const) and isinstance(x.v, str) for x in el):
            return None
        return [x.v for x in el]

    # ------------------------------------------------------------ modules
    rep = N.Report()
    checkers = {}

    def exports(t):
        if t not in P.modules:
            return ext_star(t)
        if t not in checkers:
            checkers[t] = N.Checker(P, P.modules[t], rep, exports, None)
            checkers[t].toplevel()
        a = exported(t)
        if a is not None:
            return a
        return sorted(n for n in checkers[t].func_globals if not n.startswith("_"))

    def ext_star(t):
        return []

    for m in sorted(P.modules):
        exports(m)
    for m, mod in sorted(P.modules.items()):
        if ns(m) is not None:
            bad = errs.get(m)
            c.add("module-import", m, bad is None, mod.rel + ":1", "" if bad is None else "%s at line %d" % (bad[1], bad[0]))
        if ".demo" in m:
            continue
        a = exported(m)
        if a is None:
            if any(isinstance(s, (ast.Assign, ast.AugAssign)) and "__all__" in ast.unparse(s).split("=")[0] for s in mod.tree.body):
                c.add("published", m + " __all__", None, mod.rel + ":1", "__all__ does not fold to a list of strings")
        else:
            for n in a:
                d = ns(m)
                okn = n in checkers[m].func_globals and (n not in d or d[n] is not UNBOUND)
                c.add("published", "%s.%s" % (m, n), okn, mod.rel + ":1", "" if okn else "listed in __all__ but not defined by the module")
            dup = sorted({n for n in a if a.count(n) > 1})
    # ------------------------------------------------------------ imports
    ext_mods, ext_chains, ext_sites = set(), set(), {}

    def ext(m, chain, mod, node, what):
        ext_mods.add(m)
        if chain:
            ext_chains.add((m, tuple(chain)))
        ext_sites.setdefault((m, ".".join(chain)), []).append((mod, node, what))

    def in_try(mod):
        r = set()
        for t in ast.walk(mod.tree):
            if isinstance(t, ast.Try) and any(h.type is None or any(x in ast.unparse(h.type) for x in ("ImportError", "ModuleNotFoundError", "Exception")) for h in t.handlers):
                for s in t.body:
                    r |= {id(x) for x in ast.walk(s)}
        return r

    def is_local_pkg(t):
        return t == "HamiltonianPy" or (t or "").startswith("HamiltonianPy.")

    def defined(t, n):
        """is `n` an attribute of package module t"""
        return n in checkers[t].func_globals or t + "." + n in P.modules or n in ("__name__", "__file__", "__doc__", "__path__", "__package__", "__version__") and (n != "__version__" or n in checkers[t].func_globals)

    for m, mod in sorted(P.modules.items()):
        soft = in_try(mod)
        for s in ast.walk(mod.tree):
            w = "%s:%d" % (mod.rel, getattr(s, "lineno", 0))
            if isinstance(s, ast.Import):
                for a in s.names:
                    inst = "%s: import %s" % (m, a.name)
                    if is_local_pkg(a.name):
                        c.add("imports", inst, a.name in P.modules, w, "no module %s" % a.name)
                    elif id(s) not in soft:
                        ext(a.name, [], mod, s, inst)
            elif isinstance(s, ast.ImportFrom):
                t = N.import_target(mod, s)
                for a in s.names:
                    inst = "%s: from %s%s import %s" % (m, "." * s.level, s.module or "", a.name)
                    if s.level or is_local_pkg(t):
                        if t not in P.modules:
                            c.add("imports", inst, False, w, "no module %s" % t)
                        elif a.name != "*":
                            c.add("imports", inst, defined(t, a.name), w, "module %s does not define %s" % (t, a.name))
                        else:
                            c.add("imports", inst, True, w)
                    elif id(s) not in soft:
                        ext(t, [] if a.name == "*" else [a.name], mod, s, inst)
    # ------------------------------------------------------------ names
    for m in sorted(P.modules):
        checkers[m].run()
    badscope = {}
    for mod, node, label, text in rep.bad:
        badscope.setdefault((mod.name, label), []).append((node.lineno, text))
    for m, mod in sorted(P.modules.items()):
        labels = {m: 1}
        for label, line in scopes(mod):
            labels[label] = line
        for label in sorted(set(labels) | {l for mm, l in badscope if mm == m}):
            b = badscope.get((m, label))
            c.add("definite-assignment", label, not b, "%s:%d" % (mod.rel, b[0][0] if b else labels.get(label, 1)), "; ".join("line %d: %s" % x for x in (b or [])[:4]))
    # ------------------------------------------------------------ attribute chains
    cl = classes(P)
    for cc in cl.values():
        for b in cc.node.bases:
            r = resolve_class(P, cl, cc.mod, b.id) if isinstance(b, ast.Name) else resolve_class(P, cl, cc.mod, b.attr) if isinstance(b, ast.Attribute) else None
            if r is not None and r is not cc:
                cc.bases.append(r)
            else:
                cc.ext.append(ast.unparse(b).split(".")[-1])
    checked = set()
    for m, mod in sorted(P.modules.items()):
        amap = {}
        for s in ast.walk(mod.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        amap[a.asname] = (a.name, [])
                    else:
                        amap[a.name.split(".")[0]] = (a.name.split(".")[0], [])
            elif isinstance(s, ast.ImportFrom):
                t = N.import_target(mod, s)
                for a in s.names:
                    if a.name != "*":
                        amap[a.asname or a.name] = (t, [a.name])
        local = shadowed(mod)
        for parts, node in N.module_chains(mod.tree):
            root = parts[0]
            if root in local:
                continue
            w = "%s:%d" % (mod.rel, node.lineno)
            inst = "%s: %s" % (m, ".".join(parts))
            if root in amap and not is_local_pkg(amap[root][0]):
                t, pre = amap[root]
                ext(t, pre + parts[1:], mod, node, inst)
                continue
            if (inst, "ok") in checked:
                continue
            verdict = None
            if root in amap:
                t, pre = amap[root]
                verdict = walk_chain(P, cl, checkers, defined, t, pre + parts[1:])
            else:
                k = resolve_class(P, cl, mod, root)
                if k is not None:
                    verdict = class_attr(k, parts[1])
                elif mod.is_pkg and m + "." + root in P.modules:
                    verdict = walk_chain(P, cl, checkers, defined, m + "." + root, parts[1:])
            if verdict is not None:
                checked.add((inst, "ok"))
                c.add("attribute-chain", inst, verdict is True, w, "" if verdict is True else verdict)
    # ------------------------------------------------------------ installed libraries
    missing = N.external_missing(ext_mods, [(a, list(b)) for a, b in ext_chains])
    for (t, chain), sites in sorted(ext_sites.items()):
        mod, node, what = sites[0]
        w = "%s:%d" % (mod.rel, node.lineno)
        rule = "imports" if isinstance(node, (ast.Import, ast.ImportFrom)) else "attribute-chain"
        if missing is None:
            c.add(rule, what, None, w, "installed libraries cannot be queried")
        else:
            okx = (t, chain) not in missing and (t, "") not in missing
            c.add(rule, what, okx, w, "" if okx else "%s%s does not exist in the installed libraries (%d uses)" % (t, "." + chain if chain else "", len(sites)))
    # ------------------------------------------------------------ self attributes
    for (mn, cn), k in sorted(cl.items()):
        known = k.known()
        for fname, f in [(f.name, f) for f in k.funcs]:
            me = self_name(f)
            inst = "%s.%s.%s" % (mn, cn, fname)
            w = "%s:%d" % (k.mod.rel, f.lineno)
            if me is None or known is None:
                continue
            bad = []
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me and x.attr not in known:
                    # attributes of subclasses (mixins) count when every concrete user defines them
                    if any(k in o.mro() and o is not k and o.known() and x.attr in o.known() for o in cl.values()):
                        continue
                    bad.append("line %d: %s.%s is defined nowhere in the class" % (x.lineno, me, x.attr))
            c.add("self-attribute", inst, not bad, w, "; ".join(bad[:3]))
        init = k.methods.get("__init__")
        if init is None or known is None or self_name(init) is None:
            continue
        bad = []
        fl = InitFlow(Null(), self_name(init), k, lambda x, all_: bad.append("line %d: %s is read before it is assigned%s" % (x.lineno, x.attr, "" if all_ else " on some path")))
        fl.scope = None
        for g in ast.walk(init):
            if isinstance(g, ast.FunctionDef) and g is not init:
                names = {self_name(init)} | {a.arg for a in g.args.posonlyargs + g.args.args + g.args.kwonlyargs}
                fl.nested.setdefault(g.name, set()).update(x.attr for x in ast.walk(g) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                                                            and isinstance(x.value, ast.Name) and x.value.id in names)
        fl.ends = []
        end = fl.block(init.body, [N.Path(frozenset(), {})]) + fl.ends
        w = "%s:%d" % (k.mod.rel, init.lineno)
        c.add("self-attribute", "%s.%s constructor order" % (mn, cn), not bad, w, "; ".join(bad[:3]))
        if not end:
            continue
        every = frozenset.intersection(*[p.names for p in end])
        some = frozenset().union(*[p.names for p in end])
        part = {a for a in some - every if a not in fl.always}
        late = set()          # assigned outside the constructor only
        for cc in k.mro():
            late |= cc.stored
        late -= some | fl.always
        for a in sorted(part | late):
            users = []
            for cc in k.mro():
                for f in cc.funcs:
                    if f is init:
                        continue
                    me = self_name(f)
                    writes = any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Store) for x in ast.walk(f))
                    for x in ast.walk(f):
                        if isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me and not writes and guarded(f, x) is False:
                            users.append("%s line %d" % (f.name, x.lineno))
            if f_enter(k, a):
                continue
            c.add("self-attribute", "%s.%s.%s assigned by the constructor" % (mn, cn, a), not users, w,
                  "" if not users else "not assigned on every path of __init__, but read unconditionally in %s" % ", ".join(users[:3]))
    # ------------------------------------------------------------ documented lists of available names
    for m in ("HamiltonianPy.quantumoperator", "HamiltonianPy.lattice", "HamiltonianPy.GreenFunction"):
        mod = P.modules.get(m)
        if mod is None:
            continue
        for n in documented(ast.get_docstring(mod.tree) or ""):
            okn = n in checkers[m].func_globals or any(n in checkers[x].func_globals for x in P.modules if x.startswith(m + "."))
            c.add("published", "%s documents %s" % (m, n), okn, mod.rel + ":1", "" if okn else "listed as available but defined nowhere in the subpackage")
    c.notes.append("%d name uses in %d scopes, %d attribute chains and imports of installed libraries resolved" % (rep.uses, rep.scopes, len(ext_sites)))
    return c.finish(EXPL, floor=400)


def f_enter(k, a):
    """attributes set by __enter__ and read by __exit__ follow the context-manager protocol"""
    e = k.methods.get("__enter__")
    return e is not None and any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Store) for x in ast.walk(e))


def scopes(mod):
    out = []

    def walk(n, label):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.append((label + "." + x.name, x.lineno))
                walk(x, label + "." + x.name)
            else:
                walk(x, label)
    walk(mod.tree, mod.name)
    return out


def shadowed(mod):
    """names bound in some function or comprehension of the module (other than by import)"""
    out = set()
    for f in ast.walk(mod.tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            out |= set(N.arg_names(f.args))
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            loc = set()
            for s in ast.walk(f):
                if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                    loc.add(s.id)
            out |= loc
        if isinstance(f, ast.comprehension):
            out |= set(N.targets(f.target))
    for s in ast.walk(mod.tree):
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
            out.add(s.id)
    return out


def class_attr(k, a):
    ok = set(OBJ_ATTRS)
    for cc in k.mro():
        if cc.dynamic:
            return None
        ok |= cc.level | cc.stored | cc.given
        for e in cc.ext:
            if e == "Enum":
                ok |= ENUM_ATTRS
            elif isinstance(getattr(builtins, e, None), type):
                ok |= set(dir(getattr(builtins, e)))
            elif e not in ("object", "ABC"):
                return None
    return True if a in ok else "class %s has no attribute %s" % (k.node.name, a)


def walk_chain(P, cl, checkers, defined, t, chain):
    """does the chain exist below package module t"""
    chain = list(chain)
    while chain and t in P.modules:
        a = chain.pop(0)
        if t + "." + a in P.modules and not (a in checkers[t].globals_all and resolve_class(P, cl, P.modules[t], a)):
            # a star import may rebind the submodule's name; then the attribute is a value of unknown kind
            t = t + "." + a
            continue
        if not defined(t, a):
            return "module %s has no attribute %s" % (t, a)
        k = resolve_class(P, cl, P.modules[t], a)
        if k is not None and chain:
            return class_attr(k, chain[0])
        return True
    return True


def documented(doc):
    """names listed under the 'Available ...' headings of a docstring"""
    out, on = [], False
    lines = doc.splitlines()
    for i, l in enumerate(lines):
        if l.startswith("Available "):
            on = "modules" not in l and "subpackages" not in l
            continue
        if set(l.strip()) == {"-"}:
            continue
        if on and l and not l[0].isspace():
            for n in l.split(","):
                n = n.strip()
                if n.isidentifier():
                    out.append(n)
    return out
