"""C28: textual forms."""
from .common import *
from .c16 import fresh as constant


EXPL = ("repr, str, tolatex and show of sites, states, operators, terms, bonds, lines, index tables and Hilbert spaces are evaluated over symbolic coordinates, coefficients and (symbolic or enumerated) spin, orbit, type and formatting options. "
        "The resulting string is kept as a sequence of literal pieces and embedded values; it must be the documented text with the object's own values at the labelled places. "
        "Different sequences are reported only when they render differently for admissible sample values.")


# ------------------------------------------------------------------ strings as pieces
def flat(want):
    out = []
    for p in want:
        if isinstance(p, str):
            if out and isinstance(out[-1], str):
                out[-1] += p
            elif p:
                out.append(p)
        elif isinstance(p, Const):
            s = p.v if isinstance(p.v, str) else str(p.v)
            if out and isinstance(out[-1], str):
                out[-1] += s
            elif s:
                out.append(s)
        else:
            out.append(("val", p))
    return out


def value(v, env, memo):
    if isinstance(v, App) and v.op == "round" and len(v.args) == 2:
        return round(value(v.args[0], env, memo), value(v.args[1], env, memo))
    if isinstance(v, App) and v.op == "rint" and v.ty != "int":
        return float(round(value(v.args[0], env, memo)))
    if isinstance(v, App) and v.op == "fmt":
        if not isinstance(v.args[1], Const) or v.args[1].v == "?":
            raise NotEvaluable("format")
        return format(value(v.args[0], env, memo), v.args[1].v)
    if isinstance(v, App) and v.op == "arr":
        raise NotEvaluable("text of an array")
    return numeval(v, env, memo)


def render(parts, env, memo):
    return "".join(p if isinstance(p, str) else str(value(p[1], env, memo)) for p in parts)


def clean(parts):
    return "".join(p if isinstance(p, str) else "<%s>" % show(p[1]) for p in parts)


def spread(v):
    """alternatives of a text value: [(conditions, value)]"""
    if isinstance(v, Ite):
        return [([(v.c, True)] + k, x) for k, x in spread(v.a)] + [([(v.c, False)] + k, x) for k, x in spread(v.b)]
    return [([], v)]


def same_text(c, v, want, st):
    """text value against the expected pieces"""
    want = flat(want)
    f = c.freeze(v, st)
    vs = []
    pre = pre_of(st)
    for conds, x in spread(f):
        got = [p for p in text_parts(x) if p != ""]
        if got == want:
            vs.append(True)
            continue
        if all(isinstance(p, str) for p in got + want) and not conds:
            return False, "text is %r instead of %r" % ("".join(got), "".join(want))
        n = 0
        for env, memo in samples(pre + conds, 40, order=st.order):
            try:
                a, b = render(got, env, memo), render(want, env, memo)
            except ERRS:
                continue
            n += 1
            if a != b:
                return False, "text is %s instead of %s" % (clean(got)[:160], clean(want)[:160])
        vs.append(None)
    return All(vs), "text form: %s instead of %s" % (show(f)[:160], clean(want)[:160])


def tup(vals):
    out = ["("]
    for i, v in enumerate(vals):
        out += [", "] if i else []
        out += [v if not (isinstance(v, Const) and isinstance(v.v, float)) else repr(v.v)]
    return out + [",)" if len(vals) == 1 else ")"]


def texts(c, st, x, expected, forms=("repr(x)", "str(x)")):
    vs = []
    for src in forms:
        s2 = st.copy()
        out = c.ex(src, s2, x=x)
        r, why = c.returns(out)
        if r is not True:
            return r, "%s %s" % (src, why)
        r, why = same_text(c, out.value, expected, out.st)
        if r is False:
            return False, "%s: %s" % (src, why)
        vs.append(r)
    return All(vs), why


# ------------------------------------------------------------------ objects
NUMS = [1, 2.5, -3, 0.25, -0.125]


def sites(st):
    """[(name, values of the coordinates)]"""
    out = []
    for dim in (1, 2, 3):
        out.append(("dim %d float" % dim, [csym("a", i) for i in range(dim)]))
        out.append(("dim %d int" % dim, [Sym("k%d" % i, "int") for i in range(dim)]))
        out.append(("dim %d mixed" % dim, [Const(NUMS[(i + dim) % 5]) if i % 2 else csym("a", i) for i in range(dim)]))
        out.append(("dim %d constant" % dim, [Const(NUMS[(i + 2 * dim) % 5]) for i in range(dim)]))
    return out


def form_of(st, vals, form):
    if form == "tuple":
        return Tup(vals)
    if form == "list":
        return st.new(ListRec(list(vals), owner="caller"))
    return L.new_arr(st, (len(vals),), list(vals), owner="caller", dtype="int64" if all(tyof(v) == "int" for v in vals) else "float64")


def labels(c, st):
    """[(name, spin, orbit)]"""
    out = [("defaults", None, None)]
    for s in range(4):
        for o in (0, 1, 3):
            out.append(("spin %d orbit %d" % (s, o), Const(s), Const(o)))
    out.append(("symbolic", nat(st, "spin"), nat(st, "orbit")))
    out.append(("symbolic spin", nat(st, "spin"), Const(2)))
    return out


CLASSES = ("SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator")


def variants(c, cls):
    """[(name, mod, head arguments, label pieces before the site)]"""
    if cls == "AoC":
        return [("creation", PS, [otype_of(c, "C")], "otype=CREATION, "), ("annihilation", PS, [otype_of(c, "A")], "otype=ANNIHILATION, ")]
    if cls == "SpinOperator":
        return [(t, SS, [Const(t)], 'otype="%s", ' % t) for t in OTYPES]
    return [("", QS if cls in ("SiteID", "StateID") else PS, [], "")]


def has_spin(cls):
    return cls in ("StateID", "AoC", "NumberOperator")


def make(c, st, cls, mod, head, site, spin, orbit):
    kw = {}
    if spin is not None:
        kw = {"spin": spin, "orbit": orbit}
    return c.call(c.g(mod, cls), list(head) + [site], kw, st)


def label_text(spin, orbit):
    return [", spin=", Const(0) if spin is None else spin, ", orbit=", Const(0) if orbit is None else orbit]


def expected_repr(cls, lead, vals, spin, orbit):
    return [cls + "(" + lead + "site="] + tup(vals) + (label_text(spin, orbit) if has_spin(cls) else []) + [")"]


# ------------------------------------------------------------------ LaTeX
def rounded(v, nd):
    if isinstance(v, Const) and (nd is None or isinstance(nd, Const)):
        return str(round(v.v, 4 if nd is None else nd.v))
    if nd == Const(0):
        return App("rint", (v,), "float")
    return App("round", (v, Const(4) if nd is None else nd), tyof(v) if tyof(v) in ("int", "float") else "float")


def site_latex(vals, nd, index):
    if index is not None:
        return [index]
    out = ["("]
    for i, v in enumerate(vals):
        out += [","] if i else []
        if tyof(v) == "int" and not isinstance(v, Const):
            out.append(v)           # rounding an integer to a non-negative number of digits
        else:
            out.append(rounded(v, nd))
    return out + [")"]


def state_latex(vals, spin, orbit, o):
    out = site_latex(vals, o["nd"], o["index"]) + [","]
    sp = Const(0) if spin is None else spin
    if o["half"] and isinstance(sp, Const) and sp.v in (0, 1):
        out.append(r"\uparrow" if sp.v else r"\downarrow")
    else:
        out.append(sp)
    if not o["suppress"]:
        out += [",", Const(0) if orbit is None else orbit]
    return out


def op_latex(cls, variant, vals, spin, orbit, o):
    """pieces of the LaTeX form without the dollar signs"""
    if cls == "SpinOperator":
        return ["S_{"] + site_latex(vals, o["nd"], o["index"]) + ["}^{%s}" % variant]
    inner = state_latex(vals, spin, orbit, o)
    if cls == "NumberOperator":
        return ["n_{"] + inner + ["}"]
    return ["c_{"] + inner + ["}" if variant == "annihilation" else r"}^{\dagger}"]


def dollars(pieces):
    return [p.replace(r"\uparrow", r"$\uparrow$").replace(r"\downarrow", r"$\downarrow$") if isinstance(p, str) else p for p in pieces]


def full_latex(cls, variant, vals, spin, orbit, o):
    if cls == "SiteID":
        return site_latex(vals, o["nd"], o["index"])
    if cls == "StateID":
        return dollars(state_latex(vals, spin, orbit, o))
    return ["$"] + op_latex(cls, variant, vals, spin, orbit, o) + ["$"]


def options(c, st, cls):
    """[(name, keyword text, option dict)]"""
    out = []
    D = {"nd": None, "index": None, "half": True, "suppress": True}
    add_ = lambda name, kw, **o: out.append((name, kw, dict(D, **o)))
    add_("defaults", "")
    for n in (0, 1, 2, 3, 6):
        add_("ndigits %d" % n, "ndigits=%d" % n, nd=Const(n))
    add_("ndigits symbolic", "ndigits=nd", nd=Sym("nd", "int"))
    add_("site_index None", "site_index=None")
    for n in (0, 1, 12):
        add_("site_index %d" % n, "site_index=%d" % n, index=Const(n))
    add_("site_index symbolic", "site_index=si", index=Sym("si", "int"))
    add_("site_index and ndigits", "site_index=si, ndigits=2", index=Sym("si", "int"))
    if has_spin(cls):
        for h in (True, False):
            for s in (True, False):
                for extra, nd, ix in (("", None, None), (", ndigits=3", Const(3), None), (", site_index=7", None, Const(7))):
                    add_("half %s suppress %s%s" % (h, s, extra), "spin_one_half=%s, suppress_orbit=%s%s" % (h, s, extra), half=h, suppress=s, nd=nd, index=ix)
        add_("orbit shown", "suppress_orbit=False", suppress=False)
        add_("spin as number", "spin_one_half=False", half=False)
    return out


def check(c):
    c.rule("repr", "repr and str name the class and show every distinguishing attribute (operator type, site, spin, orbit) under its own label")
    c.rule("latex", "the LaTeX form shows operator type, site (or its index), spin and on request orbit in the documented notation")
    c.rule("term", "the text and LaTeX form of a term show its coefficient and its operators in order")
    c.rule("bond", "the text of a bond or line shows both points and its kind")
    c.rule("table", "the text of index tables, Hilbert spaces, lattices and errors shows their content")
    c.rule("show", "show() draws exactly the LaTeX form")
    W = lambda mod, cls, m: c.where(c.cls_method(mod, cls, m))
    base = c.fresh()

    for cls in CLASSES:
        for vname, mod, head, lead in variants(c, cls):
            for sname, vals in sites(base):
                lab = labels(c, base) if has_spin(cls) else [("", None, None)]
                if not c.thorough and sname not in ("dim 2 float", "dim 1 int", "dim 3 mixed"):
                    lab = lab[:1] + lab[-2:] if has_spin(cls) else lab
                for form in ("tuple", "list", "array"):
                    if form != "tuple" and sname not in ("dim 2 float", "dim 3 float", "dim 1 int") and not c.thorough:
                        continue
                    if form == "array" and len({tyof(v) for v in vals}) > 1:
                        continue
                    for lname, spin, orbit in lab:
                        def rp():
                            st = c.fresh()
                            if lname.startswith("symbolic"):
                                nat(st, "spin"), nat(st, "orbit")
                            x = make(c, st, cls, mod, head, form_of(st, vals, form), spin, orbit)
                            return texts(c, st, x, expected_repr(cls, lead, vals, spin, orbit))
                        c.run("repr", "%s %s %s %s %s" % (cls, vname, sname, form, lname), rp, W(mod, cls, "__repr__"))

                if sname.endswith("int") and not sname.startswith("dim 2") and not c.thorough:
                    continue
                for lname, spin, orbit in lab:
                    if not c.thorough and not lname.startswith(("symbolic", "def", "spin 0 orbit 1", "spin 1 orbit 3", "spin 2 orbit 3")) and has_spin(cls):
                        continue
                    if lname == "symbolic":
                        spin_l = None       # arrows depend on the value of the spin
                    for oname, kw, o in options(c, base, cls):
                        if lname.startswith("symbolic") and o["half"]:
                            continue
                        if tyof(vals[0]) == "int" and "ndigits sym" in oname:
                            continue
                        if not c.thorough and sname not in ("dim 2 float", "dim 3 mixed", "dim 2 int") and "half" in oname:
                            continue

                        def lx():
                            st = c.fresh()
                            if lname.startswith("symbolic"):
                                nat(st, "spin"), nat(st, "orbit")
                            x = make(c, st, cls, mod, head, Tup(vals), spin, orbit)
                            out = c.ex("x.tolatex(%s)" % kw, st, x=x, nd=Sym("nd", "int"), si=Sym("si", "int"))
                            r, why = c.returns(out)
                            if r is not True:
                                return r, why
                            return same_text(c, out.value, full_latex(cls, vname, vals, spin, orbit, o), out.st)
                        c.run("latex", "%s %s %s %s: %s" % (cls, vname, sname, lname, oname), lx, W(mod, cls, "tolatex"))

            # many digits
            for vals in ([Const(1 / 3), Const(2 / 3)], [Const(-0.00004)], [Const(12.34567), Const(-7), Const(1e-3)]):
                for n in (None, 0, 1, 2, 4, 6):
                    def dig():
                        st = constant(c)
                        x = make(c, st, cls, mod, head, Tup(vals), None, None)
                        o = {"nd": None if n is None else Const(n), "index": None, "half": True, "suppress": True}
                        out = c.ex("x.tolatex(%s)" % ("" if n is None else "ndigits=%d" % n), st, x=x)
                        r, why = c.returns(out)
                        if r is not True:
                            return r, why
                        return same_text(c, out.value, full_latex(cls, vname, vals, None, None, o), out.st)
                    c.run("latex", "%s %s %s ndigits %s" % (cls, vname, [v.v for v in vals], n), dig, W(mod, cls, "tolatex"))

            # index tables
            for pos in (0, 1, 2):
                for digits in ("", ", ndigits=1"):
                    def table():
                        st = constant(c)
                        S = c.g(QS, "SiteID")
                        pts = [Tup((Const(0.5), Const(0))), Tup((Const(1.5), Const(0))), Tup((Const(1.5), Const(2)))]
                        t = c.do("T([S(p) for p in pts])", st, mod=IT, T=c.g(IT, "IndexTable"), S=S, pts=Tup(pts))
                        x = make(c, st, cls, mod, head, pts[pos], Const(1) if has_spin(cls) else None, Const(2) if has_spin(cls) else None)
                        out = c.ex("x.tolatex(site_index=t%s)" % digits, st, x=x, t=t)
                        r, why = c.returns(out)
                        if cls == "SiteID" or r is not True:
                            if r is not True:
                                return r, why
                        o = {"nd": None, "index": Const(pos), "half": True, "suppress": True}
                        return same_text(c, out.value, full_latex(cls, vname, None, Const(1), Const(2), o), out.st)
                    c.run("latex", "%s %s: site %d of a table%s" % (cls, vname, pos, digits), table, W(mod, cls, "tolatex"))

            # drawing
            if cls not in ("SiteID", "StateID"):
                for kw in ("", "ndigits=2", "site_index=3") + (("suppress_orbit=False", "spin_one_half=False") if has_spin(cls) else ()):
                    def shw():
                        st = c.fresh()
                        x = make(c, st, cls, mod, head, coords("a", 2), Const(1) if has_spin(cls) else None, Const(2) if has_spin(cls) else None)
                        return drawn_text(c, st, x, "x.show(%s)" % kw, "x.tolatex(%s)" % kw)
                    c.run("show", "%s %s show(%s)" % (cls, vname, kw), shw, W(mod, cls, "show"))

    # ------------------------------------------------------------------ terms
    terms(c, W)
    bonds(c, W)
    tables(c, W)
    return c.finish(EXPL, floor=900)


def drawn_text(c, st, x, call, latex):
    want = c.freeze(c.do(latex, st.copy(), x=x), st)
    out = c.ex(call, st, x=x)
    r, why = c.returns(out)
    if r is not True:
        return r, why
    txt, opaque, shown = [], False, 0
    for e in out.st.effects:
        if isinstance(e[0], str) and e[0].startswith("call:"):
            n = e[0].split(".")[-1]
            if n in ("text", "annotate", "set_title", "figtext", "suptitle"):
                txt.append(e[1][0])
            elif n == "show":
                shown += 1
    if not txt:
        return None, "no drawn text seen"
    flatv = [a for args in txt for a in args if isinstance(a, App) and a.ty == "str" or isinstance(a, Const) and isinstance(a.v, str)]
    if any(c.freeze(a, out.st) == want for a in flatv):
        return True, ""
    parts = [p for p in text_parts(want) if p != ""]
    vs = [same_text(c, a, [p if isinstance(p, str) else p[1] for p in parts], out.st) for a in flatv]
    if flatv and all(v is False for v, _ in vs):
        return False, "draws " + vs[0][1]
    return None, "drawn text"


def terms(c, W):
    P, I = (PS, "ParticleTerm"), (SS, "SpinInteraction")
    COEFFS = [("float symbol", Sym("q", "float")), ("int symbol", Sym("n", "int")), ("complex symbol", Sym("z", "complex")), ("1.5", Const(1.5)), ("-2", Const(-2)), ("default", None), ("(1+2j)", Const(1 + 2j))]
    KINDS_ = {P: ["C", "A"], I: list(OTYPES)}
    for cls in (P, I):
        mod, name = cls
        combos = [()]
        for n in (1, 2, 3):
            combos += list(itertools.product(KINDS_[cls], repeat=n)) if cls == P or c.thorough and n < 3 else [tuple(KINDS_[cls][(i + k) % 5] for k in range(n)) for i in range(5)]
        for kinds in combos:
            for cname, q in COEFFS:
                if not c.thorough and len(kinds) == 3 and cname not in ("float symbol", "default"):
                    continue

                def operators(st):
                    ops, desc_ = [], []
                    for i, k in enumerate(kinds):
                        vals = [csym("abc"[i], j) for j in range(1 + i % 3 if cls == P else 2)]
                        if cls == P:
                            ops.append(make(c, st, "AoC", PS, [otype_of(c, k)], Tup(vals), Const(i % 3), Const(i)))
                            desc_.append(("AoC", "creation" if k == "C" else "annihilation", "otype=%s, " % ("CREATION" if k == "C" else "ANNIHILATION"), vals, Const(i % 3), Const(i)))
                        else:
                            ops.append(make(c, st, "SpinOperator", SS, [Const(k)], Tup(vals), None, None))
                            desc_.append(("SpinOperator", k, 'otype="%s", ' % k, vals, None, None))
                    if cls == I:
                        with_order(st, {(csym(u, j), csym(v, j)): "<" for u, v in ("ab", "ac", "bc") for j in range(2)})
                    t = c.call(c.g(mod, name), [Tup(ops)] + ([] if q is None else [q]), {}, st)
                    return t, desc_

                def txt():
                    st = c.fresh()
                    t, ds = operators(st)
                    want = ["The coefficient of this term: ", Const(1.0) if q is None else q, "\nThe component operators:"]
                    for d in ds:
                        want += ["\n    "] + expected_repr(d[0], d[2], d[3], d[4], d[5])
                    return texts(c, st, t, want, ("str(x)", "'{}'.format(x)"))
                inst = "%s of %s, coefficient %s" % (name, "".join(kinds) or "nothing", cname)
                c.run("term", inst, txt, W(mod, name, "__str__"))

                for kw, o in (("", {}), ("ndigits=2", {"nd": Const(2)}), ("suppress_orbit=False, spin_one_half=False", {"suppress": False, "half": False}), ("indices_table=5", {"index": Const(5)}), ("None, ndigits=1", {"nd": Const(1)})):
                    if cls == I and "orbit" in kw:
                        continue

                    def lx():
                        st = c.fresh()
                        t, ds = operators(st)
                        out = c.ex("x.tolatex(%s)" % kw, st, x=t)
                        r, why = c.returns(out)
                        if r is not True:
                            return r, why
                        oo = dict({"nd": None, "index": None, "half": True, "suppress": True}, **o)
                        want = ["$", Const(1.0) if q is None else q]
                        for d in ds:
                            want += op_latex(d[0], d[1], d[3], d[4], d[5], oo)
                        return same_text(c, out.value, want + ["$"], out.st)
                    c.run("term", inst + ": tolatex(%s)" % kw, lx, W(mod, name, "tolatex"))

        # sites by their index in a table
        for perm in itertools.permutations(range(3)):
            def tab():
                st = constant(c)
                pts = [Tup((Const(float(i)), Const(0.5))) for i in range(3)]
                T = c.do("T([S(p) for p in pts])", st, mod=IT, T=c.g(IT, "IndexTable"), S=c.g(QS, "SiteID"), pts=Tup(pts))
                ops, want = [], ["$", Const(2)]
                for i, k in enumerate(perm):
                    if cls == P:
                        ops.append(make(c, st, "AoC", PS, [otype_of(c, "C" if i % 2 else "A")], pts[k], Const(i % 2), Const(0)))
                        want += op_latex("AoC", "creation" if i % 2 else "annihilation", None, Const(i % 2), Const(0), {"nd": None, "index": Const(k), "half": True, "suppress": True})
                    else:
                        ops.append(make(c, st, "SpinOperator", SS, [Const(OTYPES[i])], pts[k], None, None))
                        want += op_latex("SpinOperator", OTYPES[i], None, None, None, {"nd": None, "index": Const(k)})
                if cls == I:            # spin operators are kept sorted by site
                    want = want[:2]
                    for i, k in sorted(enumerate(perm), key=lambda t: t[1]):
                        want += op_latex("SpinOperator", OTYPES[i], None, None, None, {"nd": None, "index": Const(k)})
                t = c.call(c.g(mod, name), [Tup(ops), Const(2)], {}, st)
                out = c.ex("x.tolatex(T)", st, x=t, T=T)
                r, why = c.returns(out)
                if r is not True:
                    return r, why
                return same_text(c, out.value, want + ["$"], out.st)
            c.run("term", "%s: sites %s of a table" % (name, perm), tab, W(mod, name, "tolatex"))
        for kw in ("", "ndigits=2", "3"):
            def shw():
                st = c.fresh()
                if cls == P:
                    ops = [aoc(c, st, "C", "a", 2), aoc(c, st, "A", "b", 2)]
                    ops = [make(c, st, "AoC", PS, [otype_of(c, k)], coords(n, 2), Const(s), Const(0)) for k, n, s in (("C", "a", 1), ("A", "b", 0))]
                else:
                    with_order(st, coord_order("a", "b", "<<"))
                    ops = [spin_op(c, st, "x", "a", 2), spin_op(c, st, "z", "b", 2)]
                t = c.call(c.g(mod, name), [Tup(ops), Sym("q", "float")], {}, st)
                return drawn_text(c, st, t, "x.show(%s)" % kw, "x.tolatex(%s)" % kw)
            c.run("show", "%s show(%s)" % (name, kw), shw, W(mod, name, "show"))

    # the error of a refused exchange names both operators
    for k in itertools.product("CA", repeat=2):
        def err():
            st = c.fresh()
            ops = [make(c, st, "AoC", PS, [otype_of(c, x)], coords(n, 2), Const(i), Const(2 - i)) for i, (x, n) in enumerate(zip(k, "ab"))]
            e = c.call(c.g(PS, "SwapFermionError"), ops, {}, st)
            out = c.ex("str(x)", st, x=e)
            r, why = c.returns(out)
            if r is not True:
                return r, why
            parts = [p for p in text_parts(c.freeze(out.value, out.st))]
            full = clean([p for p in parts])
            for i, (x, n) in enumerate(zip(k, "ab")):
                w = clean(flat(expected_repr("AoC", "otype=%s, " % ("CREATION" if x == "C" else "ANNIHILATION"), [csym(n, j) for j in range(2)], Const(i), Const(2 - i))))
                if w not in full:
                    return (None if "<" in re.sub(r"<[ab][01]>", "", full) else False), "operator %s is not shown: %s" % (w, full)
            return True, ""
        c.run("table", "SwapFermionError of %s" % "".join(k), err, W(PS, "SwapFermionError", "__str__"))


def bonds(c, W):
    for dim in (1, 2, 3):
        for d in (None, True, False):
            for form in ("tuple", "list", "array"):
                for kind in ("float", "int"):
                    def rp():
                        st = with_order(c.fresh(), coord_order("a", "b", ("<",) * dim)) if kind == "float" else c.fresh()
                        A, B = ([csym(n, i) for i in range(dim)] if kind == "float" else [Const(3 * i + (n == "b")) for i in range(dim)] for n in "ab")
                        b = c.call(c.g(BO, "Bond"), [form_of(st, A, form), form_of(st, B, form)], {} if d is None else {"directional": Const(d)}, st)
                        want = ["Bond(p0="] + tup(A) + [", p1="] + tup(B) + [", directional=%s)" % (d is not False)]
                        return texts(c, st, b, want, ("repr(x)",))
                    c.run("bond", "Bond dim %d directional %s %s %s" % (dim, d, form, kind), rp, W(BO, "Bond", "__repr__"))
    LINES = [("general", [0, 1, 2, 5], "y = %.4fx + %.4f" % (2, 1)), ("falling", [1, 1, 3, -4], "y = %.4fx + %.4f" % (-2.5, 3.5)), ("horizontal", [0.0, 1.25, 3.0, 1.25], "y = 1.2500"), ("horizontal reversed", [3, -2, 0, -2], "y = -2.0000"),
             ("vertical", [0.75, 0.0, 0.75, 3.0], "x = 0.7500"), ("vertical downwards", [-1, 2, -1, 0], "x = -1.0000"), ("through the origin", [0, 0, 1, 1], "y = 1.0000x + 0.0000"), ("steep", [0.1, 0.0, 0.2, 10.0], "y = 100.0000x + -10.0000")]
    for name, p, s in LINES:
        for form in ("tuple", "list", "array"):
            def ln():
                st = constant(c)
                v = [Const(float(x)) if form == "array" else Const(x) for x in p]
                x = c.call(c.g(L2, "Line2D"), [form_of(st, v[:2], form), form_of(st, v[2:], form)], {}, st)
                vals = v
                r, why = texts(c, st, x, ["Line2D(p0="] + tup(vals[:2]) + [", p1="] + tup(vals[2:]) + [")"], ("repr(x)",))
                if r is False:
                    return r, why
                r2, why2 = texts(c, st, x, [s], ("str(x)",))
                return (All(r, r2), why2 or why) if r2 is not False else (False, why2)
            c.run("bond", "Line2D %s %s" % (name, form), ln, W(L2, "Line2D", "__str__"))
    for px in ("<", ">"):
        def lsym():
            st = c.fresh()
            x0, y0 = Sym("x0", "float"), Sym("y0", "float")
            dx, dy = (2.0 if px == "<" else -2.0), 3.0
            ln_ = c.call(c.g(L2, "Line2D"), [Tup((x0, y0)), Tup((add(x0, Const(dx)), add(y0, Const(dy))))], {}, st)
            r, why = texts(c, st, ln_, ["Line2D(p0="] + tup([x0, y0]) + [", p1="] + tup([add(x0, Const(dx)), add(y0, Const(dy))]) + [")"], ("repr(x)",))
            if r is False:
                return r, why
            k = dy / dx
            want = ["y = ", "%.4f" % k, "x + ", App("fmt", (sub(y0, mul(Const(k), x0)), Const(".4f")), "str")]
            r2, why2 = texts(c, st, ln_, want, ("str(x)",))
            return (All(r, r2), why2) if r2 is not False else (False, why2)
        c.run("bond", "Line2D at a symbolic place %s" % px, lsym, W(L2, "Line2D", "__str__"))


def lines_of(c, v, st):
    return clean(text_parts(c.freeze(v, st))).split("\n")


def tables(c, W):
    # index tables
    for n in (0, 1, 2, 4):
        for kind in ("SiteID", "StateID", "constants"):
            def tb():
                st = constant(c)
                if kind == "constants":
                    objs = Tup([Const(10 * (n - i) + 1) for i in range(n)])
                    src, reps = "T(list(o))", [str(10 * (n - i) + 1) for i in range(n)]
                else:
                    pts = [Tup((Const(float(i)), Const(-1.5))) for i in range(n)]
                    objs = Tup(pts[::-1])
                    src = "T([S(p) for p in o])"
                    reps = ["%s(site=(%r, -1.5)%s)" % (kind, float(i), ", spin=0, orbit=0" if kind == "StateID" else "") for i in range(n)][::-1]
                t = c.do(src, st, mod=IT, T=c.g(IT, "IndexTable"), S=c.g(QS, "SiteID" if kind == "constants" else kind), o=objs)
                v = c.do("str(t)", st, t=t)
                want = "\n".join(["Index   Object", "=============="] + ["{0:<8}{1}".format(i, r) for i, r in enumerate(reps)])
                return same_text(c, v, [want], st)
            c.run("table", "IndexTable of %d %s" % (n, kind), tb, W(IT, "IndexTable", "__str__"))
    # Hilbert spaces
    for src, rep in (("S(2)", "SimpleHilbertSpace((0, 1), -1)"), ("S(4, 2)", "SimpleHilbertSpace((0, 1, 2, 3), 2)"), ("S([3, 5, 8], 1)", "SimpleHilbertSpace((3, 5, 8), 1)"), ("S((7,), 0)", "SimpleHilbertSpace((7,), 0)"), ("S(1, number=-1)", "SimpleHilbertSpace((0,), -1)")):
        def sh():
            st = constant(c)
            x = c.do(src, st, mod=HS, S=c.g(HS, "SimpleHilbertSpace"))
            r, why = texts(c, st, x, [rep], ("repr(x)",))
            if r is False:
                return r, why
            g = lines_of(c, c.do("str(x)", st, x=x), st)
            m = re.match(r"SimpleHilbertSpace\((\(.*\)), (-?\d+)\)", rep)
            want = ["The number of particle: " + m[2], "The number of single-particle state: %d" % len(eval(m[1])), "All available single-particle states:", "    " + m[1]]
            if g != want:
                return (False if "<" not in "".join(g) else None), "str is %s" % g
            return r, why
        c.run("table", src, sh, W(HS, "SimpleHilbertSpace", "__repr__"))
    for src, rep, parts in (("S(4)", None, 1), ("S((2, 1))", None, 1), ("S(([3, 1], 1))", None, 1), ("S([[0, 2], 1], [[1, 3], 1])", "HilbertSpace(((0, 2), 1), ((1, 3), 1))", 2), ("S([(0, 1), 1], [(2, 3), 1])", "HilbertSpace(((0, 1), 1), ((2, 3), 1))", 2)):
        def hs():
            st = constant(c)
            x = c.do(src, st, mod=HS, S=c.g(HS, "HilbertSpace"))
            specs = c.do("[repr(s) for s in x.subspace_specifiers]", st, x=x)
            el = [clean(text_parts(c.freeze(e, st))) for e in c.items(specs, st)]
            return texts(c, st, x, [rep or "HilbertSpace(" + ", ".join(el) + ")"], ("repr(x)",))
        c.run("table", "Hilbert" + src, hs, W(HS, "HilbertSpace", "__repr__"))
        def hstr():
            st = constant(c)
            x = c.do(src, st, mod=HS, S=c.g(HS, "HilbertSpace"))
            specs = c.do("[str(s) for s in x.subspace_specifiers]", st, x=x)
            el = [clean(text_parts(c.freeze(e, st))) for e in c.items(specs, st)]
            num = c.do("x.subspace_number", st, x=x)
            return texts(c, st, x, ["\n".join(["subspace number: %s" % show(num), "subspace specifiers:"] + ["    " + e for e in el])], ("str(x)",))
        c.run("table", "Hilbert" + src + " str", hstr, W(HS, "HilbertSpace", "__str__"))
    # lattices
    LAT = [("chain", [[0.0], [0.5], [1.25]], [[2.0]]), ("square", [[0.0, 0.0], [1.0, 0.5]], [[2.0, 0.0], [0.0, 3.0]]), ("cluster", [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0]], None), ("ribbon", [[0.0, 0.0], [0.0, 1.0]], [[1.0, 0.0]]),
           ("skewed", [[0.25, 0.5]], [[1.0, 0.0], [0.5, 2.0]]), ("cubic", [[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]], [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 4.0]])]
    for name, pts, vecs in LAT:
        def lat():
            st = constant(c)
            dim = len(pts[0])
            mk = lambda rows: L.new_arr(st, (len(rows), dim), [Const(x) for r in rows for x in r], owner="caller", dtype="float64")
            x = c.call(c.g(LA, "Lattice"), [mk(pts), mk(vecs or [])], {}, st)
            v = c.do("str(x)", st, x=x)
            bs = c.freeze(c.do("x.bs", st, x=x), st)
            k = len(vecs or [])
            want = ["Point Number: %d" % len(pts), "Space Dimension: %d" % dim, "Translation Dimension: %d" % k, "Points:"] + [[Const(a) for a in p] for p in pts] + ["Vectors:"] + [[Const(a) for a in p] for p in vecs or []] + ["Bs:"]
            if isinstance(bs, App) and bs.op == "arr":
                want += [list(bs.args[1].items[i * dim:(i + 1) * dim]) for i in range(k)]
            elif k:
                return None, "reciprocal vectors"
            rows_, cur = [], []
            for p in text_parts(c.freeze(v, st)):
                if isinstance(p, str):
                    bits = p.split("\n")
                    cur.append(bits[0])
                    for b in bits[1:]:
                        rows_.append(cur)
                        cur = [b]
                else:
                    cur.append(p)
            rows_.append(cur)
            rows_ = [[p for p in r if p != ""] for r in rows_]
            if len(rows_) != len(want):
                return False, "%d lines instead of %d" % (len(rows_), len(want))
            vs = []
            for r, w in zip(rows_, want):
                if isinstance(w, str):
                    t = clean(r)
                    if t.strip() != w:
                        lead = t.strip().replace("<np.array2string", "[<", 1) if t.strip().startswith("<np.array2string") else t.strip()      # the text of an array opens with a bracket
                        return (False if "<" not in t or not w.startswith(lead[:lead.index("<")]) else None), "line %r instead of %r" % (t, w)
                    vs.append(True)
                    continue
                a = [p[1] for p in r if not isinstance(p, str)]
                if len(a) == 1 and isinstance(a[0], App) and a[0].op == "np.array2string":
                    a = [a[0].args[0]]
                if len(a) != 1 or not (isinstance(a[0], App) and a[0].op == "arr"):
                    vs.append(None)
                    continue
                e = c.veq(a[0], App("arr", (Tup((Const(dim),)), Tup(w)), "ndarray"), st)
                if e is False:
                    return False, "shows %s instead of %s" % (show(a[0]), [show(t) for t in w])
                vs.append(e)
            return All(vs), ""
        c.run("table", "Lattice %s" % name, lat, W(LA, "Lattice", "__str__"))
