"""Name resolution and definite assignment over the syntax trees of every module."""
import ast
import builtins
import json
import subprocess

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__loader__", "__path__", "__builtins__", "__annotations__"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
CAP = 400


class Report:
    def __init__(self):
        self.bad = []          # (module, line, scope, text)
        self.uses = 0
        self.scopes = 0


# ------------------------------------------------------------------ scopes
def targets(t):
    """names bound by an assignment target"""
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for x in t.elts for n in targets(x)]
    if isinstance(t, ast.Starred):
        return targets(t.value)
    return []


def arg_names(a):
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return r + [x.arg for x in (a.vararg, a.kwarg) if x]


def bound_in(body):
    """names bound in a function / class / module body (not in nested scopes), plus global/nonlocal declarations"""
    out, glob, nonl = set(), set(), set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.update(targets(x.target))
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Import):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name != "*":
                    out.add(a.asname or a.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for x in ast.iter_child_nodes(n):
            walk(x)
    for s in body:
        walk(s)
    return out - glob - nonl, glob, nonl


class Path:
    """one class of executions: names certainly bound, and the truth of conditions met so far"""
    __slots__ = ("names", "conds")

    def __init__(self, names, conds):
        self.names, self.conds = names, conds

    def key(self):
        return self.names, tuple(sorted(self.conds.items()))


def dedupe(ps):
    seen, out = set(), []
    for p in ps:
        k = p.key()
        if k not in seen:
            seen.add(k)
            out.append(p)
    if len(out) > CAP:          # forget conditions, then names (towards fewer reports: keep the union)
        seen, o2 = set(), []
        for p in out:
            if p.names not in seen:
                seen.add(p.names)
                o2.append(Path(p.names, {}))
        out = o2
        if len(out) > CAP:
            out = [Path(frozenset().union(*[p.names for p in out]), {})]
    return out


class Flow:
    """definite assignment of the local names of one scope"""

    def __init__(self, checker, local, label):
        self.c, self.local, self.label = checker, local, label
        self.brk, self.cont = [], []
        self.hook = None

    # ---------------------------------------------------------- expressions
    def uses(self, e, ps, inner0=frozenset()):
        """check the loads inside an expression; returns the names bound by it (walrus)"""
        new = set()
        if e is None:
            return new
        stack = [(e, frozenset(inner0))]
        while stack:
            n, inner = stack.pop()
            if isinstance(n, FUNCS):
                if isinstance(n, ast.Lambda):
                    for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                        stack.append((d, inner))
                    self.c.nested(n, self, inner)
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                b = set(inner)
                for g in n.generators:
                    stack.append((g.iter, frozenset(b)))
                    b.update(targets(g.target))
                    for i in g.ifs:
                        stack.append((i, frozenset(b)))
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                    stack.append((x, frozenset(b)))
                continue
            if isinstance(n, ast.NamedExpr):
                new.update(targets(n.target))
                stack.append((n.value, inner))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id not in inner:
                    self.load(n, ps, new)
                continue
            if isinstance(n, ast.IfExp):
                self.cond_expr(n, ps, inner, stack)
                continue
            if isinstance(n, ast.BoolOp):
                cur = ps
                for v in n.values:
                    new |= self.uses_in(v, cur, inner)
                    cur = [q for q in (self.assume(p, v, isinstance(n.op, ast.And)) for p in cur) if q is not None]
                continue
            for x in ast.iter_child_nodes(n):
                if isinstance(x, (ast.expr, ast.comprehension, ast.keyword, ast.slice if hasattr(ast, "slice") else ast.expr)):
                    stack.append((x, inner))
        return new

    def uses_in(self, e, ps, inner):
        return self.uses(e, ps, inner)

    def cond_expr(self, n, ps, inner, stack):
        self.uses(n.test, ps, inner)
        self.uses(n.body, [q for q in (self.assume(p, n.test, True) for p in ps) if q is not None], inner)
        self.uses(n.orelse, [q for q in (self.assume(p, n.test, False) for p in ps) if q is not None], inner)

    def load(self, n, ps, new):
        self.c.rep.uses += 1
        if n.id in self.local:
            if n.id in new:
                return
            if ps and any(n.id not in p.names for p in ps):
                if all(n.id not in p.names for p in ps):
                    self.c.bad(n, self.label, "name %r is used before any value is assigned to it" % n.id)
                else:
                    self.c.bad(n, self.label, "name %r has no value on some path to this use" % n.id)
                for p in ps:        # report once
                    p.names = p.names | {n.id}
            return
        if not ps:
            return
        self.c.resolve(n, self)

    # ---------------------------------------------------------- conditions
    def assume(self, p, test, truth):
        """path with the condition assumed; None when contradictory"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume(p, test.operand, not truth)
        if isinstance(test, ast.Constant):
            return p if bool(test.value) == truth else None
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == truth:
            for v in test.values:
                p = self.assume(p, v, truth)
                if p is None:
                    return None
            return p
        k, truth = canon(test, truth)
        if k in p.conds:
            return p if p.conds[k] == truth else None
        c = dict(p.conds)
        c[k] = truth
        return Path(p.names, c)

    def bind(self, ps, names):
        if not names:
            return ps
        names = set(names)
        out = []
        for p in ps:
            c = p.conds
            if c:
                c = {k: v for k, v in c.items() if not (names & words(k))}
            out.append(Path(p.names | names, c))
        return out

    def unbind(self, ps, names):
        return [Path(p.names - set(names), {k: v for k, v in p.conds.items() if not (set(names) & words(k))}) for p in ps]

    # ---------------------------------------------------------- statements
    def block(self, body, ps):
        for s in body:
            if self.hook:
                self.hook(ps)
            ps = dedupe(self.stmt(s, ps))
        if self.hook:
            self.hook(ps)
        return ps

    def stmt(self, s, ps):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.decorator_list + s.args.defaults + [x for x in s.args.kw_defaults if x]:
                self.uses(d, ps)
            for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs:
                self.uses(a.annotation, ps)
            self.c.nested(s, self)
            return self.bind(ps, [s.name])
        if isinstance(s, ast.ClassDef):
            for d in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.uses(d, ps)
            self.c.klass(s, self, ps)
            return self.bind(ps, [s.name])
        if isinstance(s, ast.Return):
            self.uses(s.value, ps)
            return []
        if isinstance(s, ast.Raise):
            self.uses(s.exc, ps)
            self.uses(s.cause, ps)
            return []
        if isinstance(s, ast.Break):
            self.brk[-1].extend(ps)
            return []
        if isinstance(s, ast.Continue):
            self.cont[-1].extend(ps)
            return []
        if isinstance(s, ast.Assert):
            w = self.uses(s.test, ps)
            t = [q for q in (self.assume(p, s.test, True) for p in ps) if q is not None]
            f = [q for q in (self.assume(p, s.test, False) for p in ps) if q is not None]
            if s.msg is not None:
                self.uses(s.msg, self.bind(f, w))
            return self.bind(t, w)
        if isinstance(s, ast.If):
            w = self.uses(s.test, ps)
            ps = self.bind(ps, w)
            t = [q for q in (self.assume(p, s.test, True) for p in ps) if q is not None]
            f = [q for q in (self.assume(p, s.test, False) for p in ps) if q is not None]
            return self.block(s.body, t) + self.block(s.orelse, f)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            w = self.uses(s.iter, ps)
            ps = self.bind(ps, w)
            k = "loop over " + ast.unparse(s.iter)
            never = nonempty(s.iter)
            iw = words(ast.unparse(s.iter)) - BUILTINS
            enter = [q for q in (self.flag(p, k, True) for p in ps) if q is not None]
            # a condition on the iterated values that was met before may exclude the empty case: such paths are not followed
            skip = [] if never else [q for q in (self.flag(p, k, False) for p in ps if not any(iw & words(x) for x in p.conds if not x.startswith("loop over "))) if q is not None]
            out = self.loop(s, enter, lambda x: self.bind(x, targets(s.target)))
            for t in ast.walk(s.target):
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.uses(t, ps)
            after = self.block(s.orelse, dedupe(out[0] + skip))
            return after + out[1]
        if isinstance(s, ast.While):
            const = isinstance(s.test, ast.Constant) and bool(s.test.value)
            w = self.uses(s.test, ps)
            ps = self.bind(ps, w)
            t = [q for q in (self.assume(p, s.test, True) for p in ps) if q is not None]
            f = [q for q in (self.assume(p, s.test, False) for p in ps) if q is not None]
            end, brk = self.loop(s, t, lambda x: x)
            end = [Path(p.names, {}) for p in end]
            after = [] if const else self.block(s.orelse, dedupe(f + end))
            return after + brk
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                w = self.uses(i.context_expr, ps)
                ps = self.bind(ps, w)
                if i.optional_vars is not None:
                    self.uses_target(i.optional_vars, ps)
                    ps = self.bind(ps, targets(i.optional_vars))
            return self.block(s.body, ps)
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            return self.try_(s, ps)
        if isinstance(s, ast.Assign):
            w = self.uses(s.value, ps)
            ps = self.bind(ps, w)
            names = []
            for t in s.targets:
                self.uses_target(t, ps)
                names += targets(t)
            return self.bind(ps, names)
        if isinstance(s, ast.AugAssign):
            self.uses(s.value, ps)
            if isinstance(s.target, ast.Name):
                self.load(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), ps, set())
                return self.bind(ps, [s.target.id])
            self.uses_target(s.target, ps)
            return ps
        if isinstance(s, ast.AnnAssign):
            self.uses(s.value, ps)
            self.uses_target(s.target, ps)
            return self.bind(ps, targets(s.target)) if s.value is not None else ps
        if isinstance(s, ast.Delete):
            names = []
            for t in s.targets:
                for n in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(n, ast.Name):
                        self.load(ast.copy_location(ast.Name(n.id, ast.Load()), n), ps, set())
                        names.append(n.id)
                    else:
                        self.uses_target(n, ps)
            return self.unbind(ps, names)
        if isinstance(s, ast.Import):
            return self.bind(ps, [(a.asname or a.name).split(".")[0] for a in s.names])
        if isinstance(s, ast.ImportFrom):
            names = list(self.c.star(s)) if any(a.name == "*" for a in s.names) else [a.asname or a.name for a in s.names]
            return self.bind(ps, names + self.c.submodule(s))
        if s.__class__.__name__ == "Match":
            self.uses(s.subject, ps)
            out, rest = [], True
            for c in s.cases:
                b = [x.name for x in ast.walk(c.pattern) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name]
                b += [x.rest for x in ast.walk(c.pattern) if isinstance(x, ast.MatchMapping) and x.rest]
                q = self.bind([Path(p.names, p.conds) for p in ps], b)
                if c.guard is not None:
                    self.uses(c.guard, q)
                out += self.block(c.body, q)
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    rest = False
            return out + (ps if rest else [])
        if isinstance(s, ast.Expr):
            w = self.uses(s.value, ps)
            if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit", "os._exit"):
                return []
            return self.bind(ps, w)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass)):
            return ps
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                self.uses(x, ps)
        return ps

    def flag(self, p, k, truth):
        if k in p.conds:
            return p if p.conds[k] == truth else None
        c = dict(p.conds)
        c[k] = truth
        return Path(p.names, c)

    def uses_target(self, t, ps):
        for n in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
            if isinstance(n, ast.Starred):
                n = n.value
            if isinstance(n, (ast.Tuple, ast.List)):
                self.uses_target(n, ps)
            elif isinstance(n, (ast.Attribute, ast.Subscript)):
                self.uses(n.value, ps)
                if isinstance(n, ast.Subscript):
                    self.uses(n.slice, ps)

    def loop(self, s, ps, enter):
        """(paths that leave normally, paths that break) - the body is followed for two rounds"""
        end, brk = [], []
        cur = ps
        for _ in range(2):
            self.brk.append([])
            self.cont.append([])
            cur = self.block(s.body, dedupe(enter(cur)))
            cur = dedupe(cur + self.cont.pop())
            brk += self.brk.pop()
            end += cur
        return dedupe(end), dedupe(brk)

    def try_(self, s, ps):
        seen = []
        old = self.hook

        def hook(q):
            seen.extend(Path(p.names, p.conds) for p in q)
            if old:
                old(q)
        self.hook = hook
        ok = self.block(s.body, [Path(p.names, p.conds) for p in ps])
        self.hook = old
        # nothing inside a single statement is bound when it raises: the last boundary is not a raising point
        entry = dedupe([p for p in seen])
        out = self.block(s.orelse, ok)
        for h in s.handlers:
            self.uses(h.type, entry)
            q = [Path(p.names, {}) for p in entry]
            if h.name:
                q = self.bind(q, [h.name])
            q = self.block(h.body, dedupe(q))
            if h.name:
                q = self.unbind(q, [h.name])
            out = out + q
        if s.finalbody:
            if not out:
                self.block(s.finalbody, [Path(p.names, {}) for p in entry])
                return []
            # also entered while an exception propagates
            self.block(s.finalbody, dedupe([Path(p.names, {}) for p in entry]))
            out = self.block(s.finalbody, dedupe(out))
        return out


def canon(test, truth):
    """condition text with comparison operators brought to one polarity"""
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op = test.ops[0]
        inv = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}.get(type(op))
        if inv:
            return ast.unparse(ast.Compare(test.left, [inv()], test.comparators)), not truth
    return ast.unparse(test), truth


_words = {}


def words(k):
    if k not in _words:
        import re
        _words[k] = set(re.findall(r"[A-Za-z_]\w*", k))
    return _words[k]


def nonempty(it):
    if isinstance(it, (ast.Tuple, ast.List, ast.Set)):
        return any(not isinstance(x, ast.Starred) for x in it.elts)
    if isinstance(it, ast.Constant) and isinstance(it.value, str):
        return bool(it.value)
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords:
        f, a = it.func.id, it.args
        if f in ("enumerate", "reversed", "sorted", "list", "tuple", "set") and a:
            return nonempty(a[0])
        if f == "zip" and a:
            return all(nonempty(x) for x in a)
        if f == "range" and all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in a):
            return len(range(*[x.value for x in a])) > 0
    return False


# ------------------------------------------------------------------ one module
class Scope:
    def __init__(self, kind, local, parent, glob, nonl, label):
        self.kind, self.local, self.parent, self.glob, self.nonl, self.label = kind, local, parent, glob, nonl, label


class Checker:
    def __init__(self, project, mod, rep, exports, chains):
        self.p, self.m, self.rep, self.exports, self.chains = project, mod, rep, exports, chains
        self.queue = []
        self.star_names = set()
        body = mod.tree.body
        self.globals_all, _, _ = bound_in(body)
        for s in ast.walk(mod.tree):
            if isinstance(s, ast.ImportFrom):
                self.star_names.update(self.submodule(s))
                if any(a.name == "*" for a in s.names):
                    self.star_names.update(self.star(s))
            if isinstance(s, ast.Global):
                self.globals_all.update(s.names)
        self.globals_all |= self.star_names
        self.func_globals = None

    def where(self, n):
        return "%s:%d" % (self.m.rel, getattr(n, "lineno", 0))

    def bad(self, n, label, text):
        self.rep.bad.append((self.m, n, label, text))

    def star(self, s):
        t = import_target(self.m, s)
        return self.exports(t) if t else []

    def submodule(self, s):
        """importing a submodule from the package's own __init__ also binds it there"""
        t = import_target(self.m, s)
        if self.m.is_pkg and t and t.startswith(self.m.name + "."):
            return [t[len(self.m.name) + 1:].split(".")[0]]
        return []

    def run(self):
        self.toplevel()
        while self.queue:
            node, scope, names = self.queue.pop(0)
            self.function(node, scope)

    def toplevel(self):
        if self.func_globals is not None:
            return
        f = Flow(self, self.globals_all, self.m.name)
        f.scope = Scope("module", self.globals_all, None, set(), set(), self.m.name)
        self.rep.scopes += 1
        end = f.block(self.m.tree.body, [Path(frozenset(), {})])
        # names available to functions of the imported module (not run as a script)
        g = set()
        for p in end:
            if p.conds.get("__name__ == '__main__'") is not True:
                g |= p.names
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Global):
                g.update(n.names)
        self.func_globals = g

    def nested(self, node, flow, inner=frozenset()):
        sc = flow.scope
        if inner:
            sc = Scope("function", set(inner), sc, set(), set(), sc.label)
        self.queue.append((node, sc, None))

    def klass(self, node, flow, ps):
        local, glob, nonl = bound_in(node.body)
        f = Flow(self, set(), flow.label + "." + node.name)
        f.scope = Scope("class", local, flow.scope, glob, nonl, f.label)
        f.class_names = local
        # class-level names: resolved against the class body first, then outside
        f.local = local
        outer = [Path(frozenset(n for n in local if self.visible(n, flow, ps)), {})]
        f.block(node.body, outer)

    def visible(self, n, flow, ps):
        return n in BUILTINS or any(n in p.names for p in ps)

    def function(self, node, parent):
        self.rep.scopes += 1
        name = getattr(node, "name", "<lambda>")
        label = parent.label + "." + name
        if isinstance(node, ast.Lambda):
            local, glob, nonl = set(arg_names(node.args)), set(), set()
            for x in ast.walk(node.body):
                if isinstance(x, ast.NamedExpr):
                    local.update(targets(x.target))
        else:
            local, glob, nonl = bound_in(node.body)
            local |= set(arg_names(node.args))
        f = Flow(self, local, label)
        f.scope = Scope("function", local, parent, glob, nonl, label)
        start = [Path(frozenset(arg_names(node.args)), {})]
        if isinstance(node, ast.Lambda):
            f.uses(node.body, start)
        else:
            f.block(node.body, start)

    def resolve(self, n, flow):
        s = flow.scope
        name = n.id
        if name not in s.glob:
            q = s if s.kind == "class" else s.parent
            q = s.parent
            while q is not None and q.kind != "module":
                if q.kind == "function" and name in q.local:
                    return
                q = q.parent
        if name == "__class__":
            return
        if s.kind == "module":
            if name in BUILTINS:
                return
            return self.bad(n, flow.label, "name %r is not defined" % name)
        pool = self.func_globals
        if pool is None or s.kind == "class":
            pool = self.globals_all
        if name in pool or name in BUILTINS:
            return
        if name in self.globals_all:
            return self.bad(n, flow.label, "name %r is only assigned when the module runs as a script" % name)
        self.bad(n, flow.label, "name %r is not defined" % name)


def import_target(mod, s):
    """absolute name of the module a from-import refers to"""
    if s.level == 0:
        return s.module
    base = mod.name.split(".")
    if not mod.is_pkg:
        base = base[:-1]
    if s.level > 1:
        base = base[:-(s.level - 1)]
    return ".".join(base + ([s.module] if s.module else []))


# ------------------------------------------------------------------ attribute chains of imported modules
def module_chains(tree):
    """(dotted attribute chain, node) for maximal attribute accesses that start at a plain name"""
    out = []

    def walk(n):
        if isinstance(n, ast.Attribute):
            parts, x = [n.attr], n.value
            while isinstance(x, ast.Attribute):
                parts.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.append(([x.id] + parts[::-1], n))
                return
        for y in ast.iter_child_nodes(n):
            walk(y)
    walk(tree)
    return out


EXT = r'''
import sys, json, importlib, types, warnings
warnings.simplefilter("ignore")
req = json.load(sys.stdin)
res = {"missing": [], "unavailable": []}
mods = {}
def get(m):
    if m not in mods:
        try:
            mods[m] = importlib.import_module(m)
        except ModuleNotFoundError as e:
            mods[m] = "absent" if e.name and (m == e.name or m.startswith(e.name + ".")) else "broken"
        except BaseException:
            mods[m] = "broken"
    return mods[m]
for m in req["modules"]:
    if get(m) == "absent":
        res["missing"].append([m, ""])
for m, chain in req["chains"]:
    o = get(m)
    if isinstance(o, str):
        continue
    path = m
    for a in chain:
        if not isinstance(o, (types.ModuleType, type)):
            break
        try:
            o2 = getattr(o, a)
        except AttributeError:
            if isinstance(o, types.ModuleType):
                try:
                    o2 = importlib.import_module(o.__name__ + "." + a)
                except BaseException:
                    res["missing"].append([m, ".".join(chain)])
                    break
            else:
                res["missing"].append([m, ".".join(chain)])
                break
        except BaseException:
            break
        o = o2
print("@@" + json.dumps(res))
'''


def external_missing(modules, chains):
    """which external modules / attribute chains do not exist in the installed libraries (None: cannot tell)"""
    for py in ("/opt/venv/bin/python", "python3"):
        try:
            r = subprocess.run([py, "-c", EXT], input=json.dumps({"modules": sorted(modules), "chains": sorted(chains)}), capture_output=True, text=True, timeout=120,
                               env={"MPLBACKEND": "agg", "PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "MPLCONFIGDIR": "/nonexistent"})
        except (OSError, subprocess.TimeoutExpired):
            continue
        for line in r.stdout.splitlines():
            if line.startswith("@@"):
                d = json.loads(line[2:])
                return {(a, b) for a, b in d["missing"]}
    return None
