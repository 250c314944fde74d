"""C16: precision and threshold settings take effect and reset consistently."""
from .common import *

EXPL = ("Every module-level setting (a module global that some function rebinds) is tracked through its setter: the setter is evaluated abstractly with no argument, with every precision 0..8 / threshold, in sequences of up to "
        "three calls, and with symbolic arguments; afterwards (a) each rebound global holds the documented function of the argument and the import-time value after a call without argument, (b) constant propagation through "
        "every function of the module that reads the setting shows the new resolution in force (pairs of coordinates chosen well inside the cell or well outside it), (c) refused arguments leave all settings unchanged on the raising path.")

PREC = [(QS, "set_float_point_precision"), (BO, "set_float_point_precision"), (LA, "set_float_point_precision")]
THR = [(LZ, "set_threshold"), (R3, "set_threshold")]


def fresh(c):
    """state with the import-time values of the settings"""
    st = c.fresh()
    for (m, n), v in c.ip.settings.items():
        st.locals["mod:" + m][n] = v
    return st


def current(c, st, mod):
    return {n: st.locals["mod:" + mod].get(n) for (m, n) in c.ip.settings if m == mod}


# every probe maps (state) -> frozen value; `p` digits
def site_probe(c, mod, p):
    """expression and expected value when the precision is p digits: coordinates inside / outside one cell, at several places"""
    u = 10.0 ** -p
    out = []
    for k in (0, 17):
        for x, y, want in ((k * u + 0.2 * u, k * u + 0.3 * u, True), (k * u + 0.2 * u, k * u + 2.2 * u, False), (k * u + 0.2 * u, k * u + 0.45 * u, True)):
            x, y = repr(x), repr(y)
            if mod == QS:
                out.append(("SiteID((%s,)) == SiteID((%s,))" % (x, y), want))
                out.append(("StateID((1.0, %s), spin=1) != StateID((1.0, %s), spin=1)" % (x, y), not want))
                out.append(("len({SiteID((%s, 0.5)), SiteID((%s, 0.5))})" % (x, y), 1 if want else 2))
            elif mod == BO:
                out.append(("Bond((%s,), (5.0,)) == Bond((%s,), (5.0,))" % (x, y), want))
                out.append(("Bond((0.0, 5.0), (1.0, %s), directional=False) != Bond((1.0, %s), (0.0, 5.0), directional=False)" % (x, y), not want))
    if mod == LA:
        for d, want in ((0.3 * u, False), (3.0 * u, True), (0.06 * u, False), (40 * u, True)):
            d_ = repr(d)
            out.append(("ok(lambda: Lattice(np.array([[0.0, 0.0], [%s, 0.0]]), np.array([[9e9, 0.0], [0.0, 9e9]])))" % d_, want))
            out.append(("ok(lambda: Lattice(np.array([[0.0, 0.0], [9e9, 0.0]]), np.array([[%r, 0.0], [0.0, %r]])))" % (0.6 * d, 0.8 * d), want))
            out.append(("l.in_cluster(np.array([0.0, %s]))" % d_, not want))
            out.append(("ok(lambda: l.getIndex(np.array([%s, 0.0])))" % d_, not want))
            out.append(("ok(lambda: l.getIndex(np.array([%s, 2e10]), fold=True))" % d_, not want))
            out.append(("ok(lambda: l.decompose(np.array([1e10, %s])))" % d_, not want))
        x = 200 + 1.0 / 3
        for nth, w in ((1, x),):
            out.append(("q.neighbor_distance(%d)" % nth, round(w, p)))
            out.append(("r.neighbor_distance(%d)" % nth, round(w, p)))
        # two neighbour distances that differ by 0.3 u belong together, by 30 u do not
        for d, want in ((0.1 * u, 2), (30 * u, 1)):
            out.append(("len(Lattice(np.array([[0.0], [1000.0], [2000.0 + %r]]), np.array([[9e9]])).bonds(1)[0])" % d, want))
    return out


def lanczos_probe(c, t):
    """vectors of norm 2t are seeds, of norm t/2 are not; the recurrence stops below t"""
    out = []
    for f, want in ((2.0, True), (0.5, False), (1.2, True), (0.8, False)):
        x = repr(f * t)
        out.append(("ok(lambda: KrylovRepresentation(np.array([[1.0, 0.0], [0.0, 2.0]]), {}, np.array([%s, 0.0])))" % x, want))
        out.append(("ok(lambda: MultiKrylov(np.array([[1.0, 0.0], [0.0, 2.0]]), {'a': np.array([0.0, %s])}))" % x, want))
        out.append(("KrylovRepresentation(np.array([[1.0, %s], [%s, 2.0]]), {}, np.array([1.0e3, 0.0]))[0].shape[0]" % (x, x), 2 if want else 1))
    return out


def rotation_probe(c, t):
    out = []
    for f, want in ((2.0, True), (0.5, False), (1.2, True), (0.8, False)):
        x = repr(f * t)
        out.append(("ok(lambda: RotationGeneral((0.0, %s, 0.0), 0.5))" % x, want))
        out.append(("ok(lambda: RotationGeneral((%s, 0.0, 0.0), 0.5, inversion=True))" % x, want))
    return out


def probes(c, mod, arg):
    if mod in (QS, BO, LA):
        return site_probe(c, mod, arg)
    return (lanczos_probe if mod == LZ else rotation_probe)(c, arg)


def holds(c, st, mod, arg, what):
    """all probes of the module behave as the setting `arg` demands"""
    vs = []
    env = {}
    if mod == LA:
        env["l"] = c.do("Lattice(np.array([[0.0, 0.0], [0.5, 7e8]]), np.array([[1e10, 0.0], [0.0, 1e10]]))", st, mod=LA)
        env["q"] = c.do("Lattice(np.array([[0.0], [200 + 1.0 / 3]]), np.array([[1e6]]))", st, mod=LA)
        env["r"] = c.do("Lattice(np.array([[0.0]]), np.array([[200 + 1.0 / 3]]))", st, mod=LA)
    for src, want in probes(c, mod, arg):
        s2 = st.copy()
        if src.startswith("ok(lambda: "):
            out = c.ex(src[len("ok(lambda: "):-1], s2, mod=mod, **env)
            r, why = c.returns(out)
            got = r
            if r is None:
                vs.append(None)
                continue
        else:
            out = c.ex(src, s2, mod=mod, **env)
            r, why = c.returns(out)
            if r is False:
                return False, "%s: %s %s" % (what, src, why)
            v = out.value if r else None
            if not isinstance(v, Const):
                vs.append(None)
                continue
            got = v.v
        if isinstance(want, float):
            good = abs(got - want) < 1e-9 * max(1, abs(want))
        else:
            good = got == want
        if not good:
            return False, "%s: %s is %s instead of %s" % (what, src.replace("ok(lambda: ", "").rstrip(")") + ")", got if not src.startswith("ok(") else ("accepted" if got else "refused"), want if not src.startswith("ok(") else ("accepted" if want else "refused"))
        vs.append(True)
    return All(vs), "%d of %d probes undecided" % (len([v for v in vs if v is None]), len(vs))


def same_settings(a, b):
    return set(a) == set(b) and all(isinstance(a[k], Const) and isinstance(b[k], Const) and abs(a[k].v - b[k].v) <= 1e-15 * abs(b[k].v) for k in a)


def check(c):
    c.rule("import", "at import the documented default setting is in force")
    c.rule("effect", "after set(x) every later computation of the module uses resolution / threshold x")
    c.rule("reset", "set() restores exactly the import-time values, after any history")
    c.rule("consistent", "every quantity derived from the setting is the documented function of the argument, for every argument")
    c.rule("refusal", "invalid arguments are refused and change nothing")
    c.rule("independent", "a setter changes no setting of another module")
    for mod, setter in PREC + THR:
        f = c.g(mod, setter)
        W = c.where(f)
        short = mod.split(".")[-1]
        prec = (mod, setter) in PREC
        args = list(range(0, 9)) if prec else [1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12]
        default = 4 if prec else (1e-4 if mod == LZ else 1e-10)
        initial = current(c, fresh(c), mod)

        def imp():
            if not initial:
                return None, "no rebindable setting found"
            return holds(c, fresh(c), mod, default, "at import")
        c.run("import", short, imp, W)
        for x in args:
            for how in (["f(x)"] + (["f(precision=x)"] if prec else ["f(threshold=x)"])):
                def eff():
                    st = fresh(c)
                    c.do(how, st, f=f, x=Const(x))
                    return holds(c, st, mod, x, "after %s(%r)" % (setter, x))
                c.run("effect", "%s %s x=%r" % (short, how, x), eff, W)
        for hist in [()] + [(x,) for x in args] + [(args[0], args[-1]), (args[-1], args[0]), (args[2], args[2])]:
            def rst():
                st = fresh(c)
                for x in hist:
                    c.do("f(x)", st, f=f, x=Const(x))
                c.do("f()", st, f=f)
                now = current(c, st, mod)
                if all(isinstance(v, Const) for v in now.values()) and now and not same_settings(now, initial):
                    return False, "settings after %s() are %s, at import %s" % (setter, {k: show(v) for k, v in now.items()}, {k: show(v) for k, v in initial.items()})
                return holds(c, st, mod, default, "after %s and %s()" % ("".join("%s(%r), " % (setter, x) for x in hist), setter))
            c.run("reset", "%s after %s" % (short, hist), rst, W)
        for a, b in ((args[1], args[4]), (args[5], args[0]), (args[3], args[3])):
            def two():
                st = fresh(c)
                c.do("f(x)", st, f=f, x=Const(a))
                c.do("f(x)", st, f=f, x=Const(b))
                return holds(c, st, mod, b, "after %s(%r), %s(%r)" % (setter, a, setter, b))
            c.run("effect", "%s %r then %r" % (short, a, b), two, W)

        # symbolic argument: derived quantities are consistent for every argument
        def sym():
            st = fresh(c)
            p = Sym("p", "int" if prec else "float")
            st.assume(cmp_num("lt", p, Const(0)), False)
            c.do("f(p)", st, f=f, p=p)
            now = current(c, st, mod)
            vs = []
            for k, v in now.items():
                if isinstance(initial[k], Const) and v == initial[k]:
                    return False, "%s keeps its value %s whatever the argument" % (k, show(v))
                try:
                    x = numeval(v, Env(1, {p: default}))
                    vs.append(abs(x - initial[k].v) <= 1e-9 * initial[k].v)
                except ERRS:
                    vs.append(None)
            if False in vs:
                return False, "with the default argument the settings are %s" % {k: show(v) for k, v in now.items()}
            return All(vs), "settings are %s" % {k: show(v) for k, v in now.items()}
        c.run("consistent", short, sym, W)
        bad = [Const(-1), Const(-5), Const(2.5), Const("4"), NONE, Tup((Const(4),))] if prec else [Const(-1e-4), Const(-1.0), Const("1e-4"), NONE, Const(1), Tup((Const(1e-4),))]
        for b in bad:
            for hist in ((), (args[2],)):
                def inv():
                    st = fresh(c)
                    for x in hist:
                        c.do("f(x)", st, f=f, x=Const(x))
                    before = current(c, st, mod)
                    out = c.ex("f(b)", st, f=f, b=b)
                    r, why = c.refuses(out)
                    if r is not True:
                        return r, why
                    for v, s, n in out.raises:
                        if current(c, s, mod) != before:
                            return False, "refused, but the setting is already changed to %s" % {k: show(v) for k, v in current(c, s, mod).items()}
                    return True, ""
                c.run("refusal", "%s %s(%s) after %s" % (short, setter, show(b), hist), inv, W)

        def negsym():
            st = fresh(c)
            p = Sym("p", "int" if prec else "float")
            st.assume(cmp_num("lt", p, Const(0)), True)
            return c.refuses(c.ex("f(p)", st, f=f, p=p))
        c.run("refusal", "%s every negative argument" % short, negsym, W)

        def indep():
            st = fresh(c)
            others = {m: current(c, st, m) for m, _ in PREC + THR if m != mod}
            c.do("f(x)", st, f=f, x=Const(args[1]))
            for m, v in others.items():
                if current(c, st, m) != v:
                    return False, "changes the settings of %s" % m
            return True, ""
        c.run("independent", short, indep, W)
    return c.finish(EXPL, floor=60)
