"""Source model: every module of the package parsed from /repo's working tree on each run."""
import ast
import os

REPO = os.environ.get("HPA_REPO", "/repo")
PKG = "HamiltonianPy"


class Module:
    def __init__(self, name, path, tree, src, is_pkg):
        self.name, self.path, self.tree, self.src, self.is_pkg = name, path, tree, src, is_pkg

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Project:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}
        self.errors = []
        root = os.path.join(repo, PKG)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                src = open(p, encoding="utf-8").read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    self.errors.append((name, str(e)))
                    continue
                self.modules[name] = Module(name, p, tree, src, is_pkg)

    def has(self, name):
        return name in self.modules

    def is_pkgpath(self, name):
        return any(m == name or m.startswith(name + ".") for m in self.modules)


class ClassInfo:
    def __init__(self, name, qual, mod, node, bases, attrs):
        self.name, self.qual, self.mod, self.node = name, qual, mod, node
        self.bases = bases          # Val list: ClassV or ExtV/BltV
        self.attrs = attrs          # name -> Val (class namespace)
        self.enum = False
        self.external = False

    def mro(self):
        out, seen = [self], {self.qual}
        for b in self.bases:
            info = getattr(b, "info", None)
            if info is not None:
                for x in info.mro():
                    if x.qual not in seen:
                        seen.add(x.qual)
                        out.append(x)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def ext_bases(self):
        r = []
        for c in self.mro():
            for b in c.bases:
                if getattr(b, "info", None) is None:
                    r.append(getattr(b, "name", "?"))
        return r

    def subclass_of(self, other):
        return any(c.qual == other.qual for c in self.mro())
