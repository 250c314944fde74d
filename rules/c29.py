"""C29: figures show the requested objects and are saved only where requested."""
import os.path
import pathlib

from .lattices import *

DR = "HamiltonianPy.tools.Draw2DLattice"
OC = "HamiltonianPy.tools.Octahedron"

EXPL = ("The drawing helpers are evaluated with the calls of the plotting library, of the file system and of print recorded as effects. For every lattice name, number of cells and combination of the saving options, directory spellings and file names "
        "(constant and symbolic), the recorded savefig target must be the requested directory joined with the requested or documented name, created beforehand, and no file operation may be recorded with saving disabled. Markers must be exactly the "
        "sites of the lattice and line segments exactly its nearest-neighbour bonds; styles are passed on.")


# ------------------------------------------------------------------ recorded drawing
class Item:
    def __init__(self, points, kw, method):
        self.lines, self.kw, self.method = points, kw, method

    def opt(self, *names):
        for n in names:
            if n in self.kw:
                return self.kw[n]
        return None


def coordinates(v):
    """list of columns (lists of floats)"""
    if isinstance(v, Const) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
        return [[float(v.v)]]
    if isinstance(v, App) and v.op == "arr":
        sh = [x.v for x in v.args[0].items]
        el = v.args[1].items
    elif isinstance(v, Tup) or isinstance(v, App) and v.op == "list":
        el = v.items if isinstance(v, Tup) else v.args
        sh = [len(el)]
    else:
        return None
    if not all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in el) or len(sh) > 2:
        return None
    f = [float(x.v) for x in el]
    if len(sh) == 0:
        return [f]
    if len(sh) == 1:
        return [f]
    return [f[k::sh[1]] for k in range(sh[1])]


def calls(effects):
    """[(method, receiver or None, args, kw)] of the recorded calls of unknown code"""
    out = []
    for e in effects:
        if isinstance(e[0], str) and e[0].startswith("call:"):
            a, kw = list(e[1][0]), dict(e[1][1])
            if e[0].startswith(("call:.", "call:path.")) and a:
                out.append((e[0][5:], a[0], a[1:], kw))
            else:
                out.append((e[0][5:], None, a, kw))
        elif e[0] in ("open", "file"):
            out.append((e[0], None, [e[1]], {}))
    return out


def plots(effects, dim=2):
    out = []
    for n, o, a, kw in calls(effects):
        m = n.split(".")[-1]
        if m not in ("plot", "scatter"):
            if m in ("add_collection", "add_line", "add_patch", "add_artist", "hlines", "vlines", "axline", "fill", "errorbar", "quiver", "add_collection3d", "step", "stem"):
                raise Undecided("drawn by " + m)
            continue
        cols = [coordinates(x) for x in a[:dim]]
        if len(cols) < dim or any(x is None for x in cols):
            raise Undecided("coordinates of %s" % m)
        k = max(len(x) for x in cols)
        cols = [x * k if len(x) == 1 else x for x in cols]
        if any(len(x) != k for x in cols) or any(len({len(x[i]) for x in cols}) != 1 for i in range(k)):
            raise Refuted("coordinates of different lengths are plotted")
        if len(a) > dim and m == "plot":
            if not isinstance(a[dim], Const):
                raise Undecided("format")
            f = a[dim].v
            kw = dict(kw)
            kw.setdefault("marker", Const("o") if any(x in f for x in "o.sx+*^v") else None)
            kw.setdefault("ls", Const("-") if "-" in f or ":" in f else Const("None"))
        out.append(Item([list(zip(*[x[i] for x in cols])) for i in range(k)], kw, m))
    return out


def is_line(it):
    ls = it.opt("ls", "linestyle")
    return it.method == "plot" and not (isinstance(ls, Const) and ls.v in ("", " ", "None", "none")) and any(len(p) > 1 for p in it.lines)


def is_marked(it):
    m = it.opt("marker")
    return it.method == "scatter" or m is not None and not (isinstance(m, Const) and m.v in ("", "None", None, " "))


def same_points(got, want):
    """'' when the two sets of points agree"""
    r = lambda p: tuple(round(x, 6) + 0.0 for x in p)
    near = lambda p, S: any(math.dist(p, q) < 1e-6 for q in S)
    for p in want:
        if not near(p, got):
            return "(%s) is not drawn" % ", ".join("%.6g" % x for x in p)
    for p in got:
        if not near(p, want):
            return "(%s) is drawn" % ", ".join("%.6g" % x for x in p)
    return ""


def same_segments(got, want):
    mid = lambda s: tuple((x + y) / 2 for x, y in zip(*s))
    key = lambda s: sorted(s)
    eq = lambda s, t: all(math.dist(x, y) < 1e-6 for x, y in zip(s, t)) or all(math.dist(x, y) < 1e-6 for x, y in zip(s, t[::-1]))
    txt = lambda s: "-".join("(%s)" % ", ".join("%.6g" % x for x in p) for p in s)
    for s in want:
        if not any(eq(s, t) for t in got):
            return "bond %s is not drawn" % txt(s)
    for s in got:
        if not any(eq(s, t) for t in want):
            return "line %s is drawn" % txt(s)
    return ""


# ------------------------------------------------------------------ files
def spelled(v, env):
    """concrete spelling of a path value, None when unknown"""
    v = env.get(v, v)
    if isinstance(v, Const):
        return v.v if isinstance(v.v, str) else str(v.v) if isinstance(v.v, (int, float)) else None
    if isinstance(v, App) and v.op == "path":
        p = [spelled(x, env) for x in v.args]
        return None if any(x is None for x in p) else str(pathlib.PurePosixPath(*p))
    if isinstance(v, App) and v.op == "strcat":
        p = [spelled(x, env) for x in v.args]
        return None if any(x is None for x in p) else "".join(p)
    if isinstance(v, App) and v.op in ("str", "fmt") and v.args[-1] == Const(""):
        return spelled(v.args[0], env)
    if isinstance(v, App) and v.op.startswith(("pathattr:", "pathmeth:")):
        p = [spelled(x, env) for x in v.args]
        name = v.op.split(":")[1]
        if None in p or name not in ("parent", "name", "stem", "suffix", "with_suffix", "with_name", "with_stem"):
            return None
        r = getattr(pathlib.PurePosixPath(p[0]), name)
        return str(r(*p[1:]) if v.op.startswith("pathmeth") else r)
    return None


def location(s):
    """normalised location of a file name relative to the working directory"""
    return os.path.normpath(os.path.join("/cwd", s))


FILE_METHODS = {"savefig", "mkdir", "write_text", "write_bytes", "touch", "unlink", "rename", "rmdir", "makedirs", "imsave", "save", "savetxt", "remove", "open", "write", "replace", "rmtree", "dump"}


def written(c, effects):
    """recorded operations which change files"""
    return [(n, o, a, kw) for n, o, a, kw in calls(effects) if n.split(".")[-1] in FILE_METHODS or n in ("open", "file")]


def judge_saved(c, st, where, directory, envs):
    """exactly one figure is saved, at this file, after its directory was made; envs: assignments of the symbolic spellings"""
    w = written(c, st.effects)
    figs = [(i, x) for i, x in enumerate(w) if x[0].split(".")[-1] in ("savefig", "imsave")]
    if len(figs) != 1:
        return False, "%d figures are saved" % len(figs)
    vs = []
    for env in envs:
        sub_ = lambda v: spelled(c.freeze(v, st), env)
        i, (n, o, a, kw) = figs[0]
        target = a[0] if a else kw.get("fname")
        got = sub_(target) if target is not None else None
        want, wdir = location(where(env)), location(directory(env))
        if got is None:
            vs.append(None)
            continue
        if location(got) != want:
            return False, "the figure is saved as %r instead of %r" % (location(got)[5:], want[5:])
        dirs = []
        for j, (n2, o2, a2, kw2) in enumerate(w):
            m = n2.split(".")[-1]
            if m not in ("mkdir", "makedirs") or j == i:
                if j != i:
                    return (None, "file operation %s" % n2)
                continue
            d = sub_(o2 if o2 is not None and n2.startswith("path.") else a2[0] if a2 else None)
            if d is None:
                vs.append(None)
                continue
            dirs.append((j, location(d), n2, kw2))
            if not (want + "/").startswith(location(d) + "/"):
                return False, "directory %r is made for a figure in %r" % (location(d)[5:], wdir[5:])
        if wdir != "/cwd":
            if not any(d == wdir and j < i for j, d, _, _ in dirs):
                return (False if all(v is not None for v in vs) else None), "the directory %r is not made before the figure is saved" % wdir[5:]
            for j, d, n2, k in dirs:
                if d == wdir and n2.startswith("path.") and (k.get("exist_ok", FALSE) == FALSE or k.get("parents", FALSE) == FALSE and wdir.count("/") > 2):
                    return False, "mkdir fails when the directory exists or its parents do not"
        vs.append(True)
    return All(vs), "place of the saved figure"


# ------------------------------------------------------------------ the lattices
CELLS = {
    "square": ([[0.0, 0.0]], [[1.0, 0.0], [0.0, 1.0]]),
    "triangle": ([[0.0, 0.0]], [[1.0, 0.0], [0.5, R3_ / 2]]),
    "honeycomb": ([[0.0, 0.0], [0.0, 1 / R3_]], [[1.0, 0.0], [0.5, R3_ / 2]]),
    "kagome": ([[0.0, 0.0], [0.25, R3_ / 4], [0.5, 0.0]], [[1.0, 0.0], [0.5, R3_ / 2]]),
}
NAMES = {"s": "square", "square": "square", "t": "triangle", "triangle": "triangle", "h": "honeycomb", "honeycomb": "honeycomb", "k": "kagome", "kagome": "kagome"}


def sites_of(points, vectors, ranges):
    out = []
    for n in itertools.product(*[range(-r, r + 1) for r in ranges]):
        for p in points:
            out.append(tuple(x + sum(k * v[i] for k, v in zip(n, vectors)) for i, x in enumerate(p)))
    return out


def nearest(sites):
    d = [(math.dist(p, q), p, q) for p, q in itertools.combinations(sites, 2)]
    m = min(x[0] for x in d)
    return [(p, q) for x, p, q in d if x < m + 1e-6]


def lattice_figure(c, which, n0, n1, link, kw, styles):
    st = fresh(c)
    out = c.ex("F(which, %s%s)" % (n0 if n1 is None else "%d, %d" % (n0, n1), kw), st, mod=DR, F=c.g(DR, "show"), which=Const(which))
    r, why = c.returns(out)
    if r is not True:
        return r, why
    ps = plots(out.st.effects)
    sites = sites_of(*CELLS[NAMES[which]], (n0, 8 if n1 is None else n1))
    marks = [p for it in ps if is_marked(it) for ln in it.lines for p in ln]
    why = same_points(marks, sites)
    if why:
        return False, "site " + why
    lines = [s for it in ps if is_line(it) for ln in it.lines for s in zip(ln, ln[1:])]
    why = same_segments(lines, nearest(sites) if link else [])
    if why:
        return False, why
    vs = [True]
    for it in ps:
        pairs = []
        if is_marked(it):
            pairs = [("mc", ("color", "c", "mfc", "markerfacecolor")), ("ms", ("ms", "markersize"))]
        elif is_line(it):
            pairs = [("lc", ("color", "c")), ("lw", ("lw", "linewidth")), ("ls", ("ls", "linestyle"))]
        for n, names in pairs:
            v = it.opt(*names)
            if v is None and styles[n] in (Const("solid"), Const("-")) and n == "ls":
                continue
            if v is None:
                if not restyled(out.st.effects):
                    return False, "the requested %s (%s) is not used" % (n, show(styles[n]))
                vs.append(None)
            elif v != styles[n]:
                if isinstance(v, Const):
                    return False, "%s is %s instead of %s" % (n, show(v), show(styles[n]))
                vs.append(None)
    v, why = shown(out.st.effects)
    return All(vs + [v]), why


def restyled(effects):
    """may the style of the artists come from elsewhere than the plotting call?"""
    known = ("set_axis_off", "set_aspect", "set_xlim", "set_ylim", "set_title", "set_xlabel", "set_ylabel", "set_axis_on", "axes")
    return any(("set" in n.split(".")[-1] or "rc" in n or "style" in n or "cycle" in n) and n.split(".")[-1] not in known for n, o, a, kw in calls(effects))


DIRS = ["", "out", "out/", "./out", "a/b/c", "a/b/c/", "../up", "/abs/dir", "/abs/dir/", ".", "with space", "dots.pdf", "out.d/x"]
FILES = [None, "figure.png", "x.pdf", "no extension", "with.dots.svg", "sub/fig.png"]


def saving(c, which, path, name, save, extra=""):
    st = fresh(c)
    P, N = Sym("path", "str"), Sym("name", "str")
    kw = ""
    if path is not None:
        kw += ", path=%s" % ("P" if path == "symbolic" else repr(path))
    if name is not None:
        kw += ", name=%s" % ("N" if name == "symbolic" else repr(name))
    if save is not None:
        kw += ", save=%s" % save
    out = c.ex("F(which, 1, 1%s%s)" % (kw, extra), st, mod=DR, F=c.g(DR, "show"), which=Const(which), P=P, N=N)
    r, why = c.returns(out)
    if r is not True:
        return r, why
    if save is False:
        w = written(c, out.st.effects)
        return not w, "%s with saving disabled" % ", ".join(x[0] for x in w)
    envs = [{P: Const(p), N: Const(n)} for p in (["out", "out/", "", "/abs/x", "a/b"] if path == "symbolic" else [path or ""]) for n in (["fig.png", "a b.pdf"] if name == "symbolic" else [name or NAMES[which] + ".pdf"])]
    return judge_saved(c, out.st, lambda e: os.path.join(e[P].v, e[N].v), lambda e: e[P].v, envs)


# ------------------------------------------------------------------ Lattice.show
def lattice_show(c, pts, vecs, scope, savefig, name):
    st = fresh(c)
    d = len(pts[0])
    mk = lambda rows: L.new_arr(st, (len(rows), d), [Const(x) for r in rows for x in r], owner="caller", dtype="float64")
    x = c.call(c.g(LA, "Lattice"), [mk(pts), mk(vecs), name], {}, st)
    args = ", ".join((["scope=%d" % scope] if scope is not None else []) + (["savefig=%s" % savefig] if savefig is not None else []))
    before = len(st.effects)
    out = c.ex("x.show(%s)" % args, st, x=x)
    r, why = c.returns(out)
    if r is not True:
        return r, why
    eff = out.st.effects[before:]
    ps = plots(eff)
    want = [tuple(p) if d == 2 else (p[0], 0.0) for p in sites_of(pts, vecs, [scope or 0] * len(vecs))]
    marks = [p for it in ps if is_marked(it) for ln in it.lines for p in ln]
    why = same_points(marks, want)
    if why:
        return False, "point " + why
    if any(is_line(it) for it in ps):
        return False, "points are joined by lines"
    tail = ",scope=%d" % (scope or 0)
    names = [{name: Const(n)} for n in ("square", "a b")] if isinstance(name, Sym) else [{name: name}]
    if savefig is not True:
        w = written(c, eff)
        if w:
            return False, "%s with saving disabled" % ", ".join(x[0] for x in w)
        if not any(n.split(".")[-1] == "show" for n, _, _, _ in calls(eff)):
            return False, "the figure is neither shown nor saved"
        return True, ""
    for n, _, a, kw in calls(eff):
        if n == "print":
            said = [spelled(c.freeze(x, out.st), names[0]) for x in a]
            if said and all(x is not None for x in said) and (names[0][name].v + tail + ".png") not in " ".join(said):
                return False, "the announced file is %r" % " ".join(said)
    s2 = out.st
    s2.effects = eff
    return judge_saved(c, s2, lambda e: e[name].v + tail + ".png", lambda e: "", names)


# ------------------------------------------------------------------ lines
def titles(c, st, eff):
    return [c.freeze(a[0] if a else kw.get("label"), st) for n, _, a, kw in calls(eff) if n.split(".")[-1] == "set_title"]


def line_figure(c, p0, p1, point):
    st = fresh(c)
    x = c.call(c.g(L2, "Line2D"), [Tup(Const(float(t)) for t in p0), Tup(Const(float(t)) for t in p1)], {}, st)
    before = len(st.effects)
    out = c.ex("x.ShowLine()" if point is None else "x.ShowLocationRelation(p)", st, x=x, p=Tup(Const(float(t)) for t in point or ()))
    r, why = c.returns(out)
    if r is not True:
        return r, why
    eff = out.st.effects[before:]
    if written(c, eff):
        return False, "a file is written"
    ps = plots(eff)
    marks = [p for it in ps if is_marked(it) for ln in it.lines for p in ln]
    why = same_points(marks, [tuple(map(float, p)) for p in ([p0, p1] if point is None else [point])])
    if why:
        return False, "point " + why
    d = (p1[0] - p0[0], p1[1] - p0[1])
    ts = []
    for it in ps:
        if is_line(it):
            for p in [p for ln in it.lines for p in ln]:
                if abs((p[0] - p0[0]) * d[1] - (p[1] - p0[1]) * d[0]) > 1e-6 * (d[0] ** 2 + d[1] ** 2) ** 0.5:
                    return False, "(%.6g, %.6g) is drawn as a point of the line" % p
                ts.append(((p[0] - p0[0]) * d[0] + (p[1] - p0[1]) * d[1]) / (d[0] ** 2 + d[1] ** 2))
    if not ts or min(ts) > 1e-9 or max(ts) < 1 - 1e-9:
        return False, "the line is not drawn through both points"
    for n, _, a, kw in calls(eff):
        if n.split(".")[-1] in ("text", "annotate"):
            pos = [coordinates(t) for t in a[:2]]
            if any(t is None for t in pos) or len(a) < 3 or not isinstance(a[2], Const):
                continue
            pos = (pos[0][0][0], pos[1][0][0])
            own = {"$p_0$": p0, "$p_1$": p1, "p": point}.get(a[2].v)
            if own is not None and math.dist(pos, own) > 1e-6:
                return False, "%s stands at (%.6g, %.6g)" % (a[2].v, pos[0], pos[1])
    want = c.freeze(c.do("str(x)", out.st, x=x), out.st)
    t = titles(c, out.st, eff)
    if len(t) == 1 and isinstance(t[0], Const) and isinstance(want, Const) and t[0] != want:
        return False, "the title is %s instead of %s" % (show(t[0]), show(want))
    return shown(eff)


def shown(eff):
    """the figure is shown after everything was drawn"""
    names = [n.split(".")[-1] for n, _, _, _ in calls(eff)]
    if "show" not in names:
        return False, "the figure is not shown"
    last = max([i for i, n in enumerate(names) if n in ("plot", "scatter", "text", "annotate", "set_title")], default=-1)
    i = max(k for k, n in enumerate(names) if n == "show")
    return (True, "") if i > last else (False, "%s after the figure is shown" % names[last])


# ------------------------------------------------------------------ polygons
def polygon_figure(c, vertices, point):
    st = fresh(c)
    x = c.call(c.g(PG, "Polygon"), [Tup(Tup(Const(float(t)) for t in p) for p in vertices)], {}, st)
    before = len(st.effects)
    out = c.ex("x.ShowPolygon()" if point is None else "x.ShowLocationRelation(p)", st, x=x, p=Tup(Const(float(t)) for t in point or ()))
    r, why = c.returns(out)
    if r is not True:
        return r, why
    eff = out.st.effects[before:]
    if written(c, eff):
        return False, "a file is written"
    ps = plots(eff)
    vertices = [tuple(map(float, p)) for p in vertices]
    marks = [p for it in ps if is_marked(it) for ln in it.lines for p in ln]
    allowed = vertices + ([tuple(map(float, point))] if point is not None else [])
    why = same_points(marks, allowed)
    if why:
        return False, "point " + why
    lines = [s for it in ps if is_line(it) for ln in it.lines for s in zip(ln, ln[1:])]
    why = same_segments(lines, list(zip(vertices, vertices[1:] + vertices[:1]))).replace("bond", "edge")
    if why:
        return False, why
    return shown(eff)


# ------------------------------------------------------------------ octahedron
def octahedron(c):
    c.ip.module(OC)
    eff = c.ip.module_effects.get(OC, ())
    ps = plots(eff, 3)
    r2 = math.sqrt(2)
    square = [(1.0, -1.0, 0.0), (1.0, 1.0, 0.0), (-1.0, 1.0, 0.0), (-1.0, -1.0, 0.0)]
    tops = [(0.0, 0.0, r2), (0.0, 0.0, -r2)]
    corners, centre = square + tops, (0.0, 0.0, 0.0)
    edges = list(zip(square, square[1:] + square[:1])) + [(a, b) for a in tops for b in square]
    return eff, ps, corners, centre, edges


def check(c):
    c.rule("saved", "a saved figure is exactly the requested file in the requested directory, which is made beforehand; without saving nothing is written")
    c.rule("sites", "the markers are exactly the sites of the requested cells, the lines exactly the nearest-neighbour bonds (when asked for), in the requested style")
    c.rule("lattice", "Lattice.show marks the points of all requested clusters and saves only on request")
    c.rule("line", "drawings of a line show the line, its points and its formula")
    c.rule("polygon", "drawings of a polygon show its closed boundary, its vertices and the requested point")
    c.rule("octahedron", "the octahedron's 6 corners, its centre and its 12 edges are drawn and the file is named after the view")
    c.rule("refusal", "unknown lattices, invalid scopes and three-dimensional lattices are refused before anything is drawn or written")
    W = c.where(c.g(DR, "show"))

    for which in sorted(NAMES):
        short = which != NAMES[which]
        for path in DIRS + [None, "symbolic"]:
            for name in FILES + ["symbolic"]:
                if (path not in ("out", "a/b/c/", "symbolic", None) or name not in (None, "figure.png", "symbolic")) and which not in ("s", "kagome") and not c.thorough:
                    continue
                for save in (None, True, False):
                    if save is True and (path, name) not in (("out", None), ("symbolic", "symbolic"), (None, "figure.png")) and not c.thorough:
                        continue
                    if save is False and which not in ("s", "kagome", "t", "honeycomb") and not c.thorough:
                        continue
                    c.run("saved", "%s, path %s, name %s, save %s" % (which, "default" if path is None else repr(path), name, "default" if save is None else save), lambda: saving(c, which, path, name, save), W)
        for extra in (", trim=True", ", link=True", ", trim=True, link=True"):
            for save in (True, False):
                c.run("saved", "%s, out/, save %s%s" % (which, save, extra), lambda: saving(c, which, "out/", None, save, extra), W)
        sizes = [(1, 1), (2, 1), (1, 2), (0, 2), (3, 0), (2, 3)] + ([(4, 4), (1, None)] if which in NAMES.values() and c.thorough else [])
        D = {"mc": Const("black"), "ms": Const(6), "lc": Const("gray"), "lw": Const(2), "ls": Const("solid")}
        for n0, n1 in sizes if not short or c.thorough else sizes[:3]:
            for link in (False, True):
                for trim in (False, True):
                    if trim and (n0, n1) not in ((1, 1), (2, 1)):
                        continue
                    kw = (", link=True" if link else "") + (", trim=True" if trim else "") + ", save=False"
                    c.run("sites", "%s %s x %s%s%s" % (which, n0, n1, " linked" if link else "", " trimmed" if trim else ""), lambda: lattice_figure(c, which, n0, n1, link, kw, D), W)
        for n, v in (("mc", "'red'"), ("ms", "3.5"), ("lc", "'#123456'"), ("lw", "7"), ("ls", "'dashed'")):
            c.run("sites", "%s with %s=%s" % (which, n, v), lambda: lattice_figure(c, which, 1, 1, True, ", link=True, save=False, %s=%s" % (n, v), dict(D, **{n: Const(eval(v))})), W)
    if c.thorough:
        c.run("sites", "default number of cells", lambda: lattice_figure(c, "square", 1, None, False, ", save=False", {"mc": Const("black"), "ms": Const(6), "lc": Const("gray"), "lw": Const(2), "ls": Const("solid")}), W)

    def refuse(src, names, st=None, **env):
        st = st or fresh(c)
        n = len(st.effects)
        out = c.ex(src, st, **env)
        r, why = c.refuses(out, names)
        if r is True:
            for exc, s2, node in out.raises:
                bad = [x[0] for x in calls(s2.effects[n:]) if x[0].split(".")[-1] in FILE_METHODS | {"plot", "show"}]
                if bad:
                    return False, "%s before the refusal" % ", ".join(bad)
        return r, why
    for w in ("'x'", "''", "'Square'", "'sq'", "None", "0", "'cubic'"):
        for kw in ("", ", path='out'", ", link=True"):
            c.run("refusal", "show(%s%s)" % (w, kw), lambda: refuse("F(%s, 1, 1%s)" % (w, kw), ("KeyError", "ValueError", "TypeError", "AssertionError"), mod=DR, F=c.g(DR, "show")), W)

    # Lattice.show
    WL = c.where(c.cls_method(LA, "Lattice", "show"))
    cases = [x for x in CASES if len(x[1][0]) < 3]
    for name, pts, vecs in cases:
        for scope in (None, 0, 1, 2):
            if scope == 2 and len(pts) * 25 > 60 and not c.thorough:
                continue
            for savefig in (None, False, True):
                for nm in ([Const("square"), Const("")] if savefig and scope in (None, 1) else []) + [Sym("name", "str")]:
                    c.run("lattice", "%s, scope %s, savefig %s, name %s" % (name, scope, savefig, show(nm)), lambda: lattice_show(c, pts, vecs, scope, savefig, nm), WL)
    for name, pts, vecs in CASES:
        if len(pts[0]) == 3:
            for args in ("", "1", "0, True", "savefig=True"):
                def three():
                    x, st = build(c, pts, vecs)
                    return refuse("x.show(%s)" % args, ("RuntimeError", "ValueError", "NotImplementedError"), st, x=x)
                c.run("refusal", "%s: show(%s)" % (name, args), three, WL)
    for args in ("-1", "1.0", "'1'", "None", "-2, True", "2.5, savefig=True"):
        def bad():
            x, st = build(c, [[0.0, 0.0]], [[1.0, 0.0], [0.0, 1.0]])
            return refuse("x.show(%s)" % args, ("AssertionError", "ValueError", "TypeError"), st, x=x)
        c.run("refusal", "square: show(%s)" % args, bad, WL)

    # lines
    LINES = [((0, 0), (1, 1)), ((0, 1), (2, 5)), ((1, 1), (3, -4)), ((0, 2), (3, 2)), ((3, -2), (-1, -2)), ((1, 0), (1, 4)), ((-2, 3), (-2, -1)), ((4, 0.5), (-2, 0.75)), ((0.1, 0.2), (0.3, 10))]
    for p0, p1 in LINES:
        c.run("line", "%s %s ShowLine" % (p0, p1), lambda: line_figure(c, p0, p1, None), c.where(c.cls_method(L2, "Line2D", "ShowLine")))
        for pt in ((0, 0), (2.5, -1), (p0[0] + 1, p0[1]), p1):
            c.run("line", "%s %s ShowLocationRelation %s" % (p0, p1, pt), lambda: line_figure(c, p0, p1, pt), c.where(c.cls_method(L2, "Line2D", "ShowLocationRelation")))

    # polygons
    POLYGONS = [[(0, 0), (1, 0), (0, 1)], [(0, 0), (2, 0), (2, 1), (0, 1)], [(3, -1), (1, 2), (-2, 1), (-1, -3)], [(1, 0), (0.5, 0.75), (-0.5, 0.75), (-1, 0), (-0.5, -0.75), (0.5, -0.75)], [(0, 0), (4, 0), (4, 4), (2, 1), (0, 4)]]
    for k, vs in enumerate(POLYGONS):
        c.run("polygon", "polygon %d ShowPolygon" % k, lambda: polygon_figure(c, vs, None), c.where(c.cls_method(PG, "Polygon", "ShowPolygon")))
        for pt in ((0.25, 0.125), (5, -6), vs[1]):
            c.run("polygon", "polygon %d ShowLocationRelation %s" % (k, pt), lambda: polygon_figure(c, vs, pt), c.where(c.cls_method(PG, "Polygon", "ShowLocationRelation")))

    # octahedron
    def marks():
        eff, ps, corners, centre, edges = octahedron(c)
        why = same_points([p for it in ps if is_marked(it) for ln in it.lines for p in ln], corners + [centre])
        return not why, "point " + why

    def lines():
        eff, ps, corners, centre, edges = octahedron(c)
        got = [s for it in ps if is_line(it) for ln in it.lines for s in zip(ln, ln[1:])]
        why = same_segments(got, edges + [(centre, p) for p in corners])
        return not why, why

    def saved():
        eff, ps, corners, centre, edges = octahedron(c)
        figs = [a for n, _, a, kw in calls(eff) if n.split(".")[-1] == "savefig"]
        view = [(a, kw) for n, _, a, kw in calls(eff) if n.split(".")[-1] == "view_init"]
        if len(figs) != 1:
            return False, "%d figures are saved" % len(figs)
        if len(view) != 1:
            return None, "the view is not set once"
        name = spelled(figs[0][0], {})
        a, kw = view[0]
        el, az = (a + [None] * 2)[:2]
        el, az = el or kw.get("elev"), az or kw.get("azim")
        if name is None or not isinstance(el, Const) or not isinstance(az, Const):
            return None, "name of the figure"
        want = "/cwd/Octahedron_azimuth=%s_elevation=%s.png" % (az.v, el.v)
        return location(name) == want, "the view from azimuth %s, elevation %s is saved as %r" % (az.v, el.v, name)
    c.run("octahedron", "points", marks, "HamiltonianPy/tools/Octahedron.py")
    c.run("octahedron", "edges", lines, "HamiltonianPy/tools/Octahedron.py")
    c.run("octahedron", "file", saved, "HamiltonianPy/tools/Octahedron.py")
    return c.finish(EXPL, floor=300)
