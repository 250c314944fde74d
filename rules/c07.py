"""C07: factories build exactly the documented terms."""
from .common import *

EXPL = ("Abstract evaluation of every factory with symbolic sites, spins, orbits and coefficient for every combination of given and omitted optional "
        "arguments; the resulting components, order and coefficient are compared with the documented operator product.")


def spec(c, t, site, spin, orbit):
    return Tup((otype_of(c, t), site, spin, orbit))


def check(c):
    c.rule("particle factory", "components and coefficient are the documented operator product; defaults as documented")
    c.rule("spin factory", "components and coefficient are the documented spin product on the given sites")
    c.rule("selector", "nonsensical selectors are refused")
    UP, DN = c.g(CO, "SPIN_UP"), c.g(CO, "SPIN_DOWN")
    Z = Const(0)
    s0, s1 = coords("a", 2), coords("b", 2)

    def F(n):
        return c.g(FA, n)

    def forms(st):
        yield "tuple", s0, s1
        yield "list", st.new(ListRec(s0.items, owner="caller")), st.new(ListRec(s1.items, owner="caller"))
        yield "array", L.new_arr(st, (2,), s0.items, owner="caller"), L.new_arr(st, (2,), s1.items, owner="caller")

    def opt(st, names, given):
        return {n: nat(st, n) for n, g in zip(names, given) if g}

    for fname, t in (("Creator", "C"), ("Annihilator", "A")):
        for form in ("tuple", "list", "array"):
            for given in itertools.product((0, 1), repeat=2):
                def fn():
                    st = c.fresh()
                    a, b = next((x, y) for n, x, y in forms(st) if n == form)
                    kw = opt(st, ("spin", "orbit"), given)
                    v = c.call(F(fname), [a], dict(kw), st)
                    if not is_instance(c, st, v, PS, "AoC"):
                        return False, "not an operator"
                    d = desc(c, st, v)
                    w = spec(c, t, s0, kw.get("spin", Z), kw.get("orbit", Z))
                    return c.veq(d, w, st), "%s instead of %s" % (show(d), show(w))
                c.run("particle factory", "%s %s given %s" % (fname, form, given), fn, c.where(F(fname)))

    def particle(fname, names, mk, extra=None, two=True):
        for form in ("tuple", "array", "list"):
            for given in itertools.product((0, 1), repeat=len(names) + 1):
                if form != "tuple" and 0 < sum(given) < len(given):
                    continue
                def fn():
                    st = c.fresh()
                    a, b = next((x, y) for n, x, y in forms(st) if n == form)
                    kw = opt(st, names, given)
                    k = Const(1.0)
                    args = dict(kw)
                    if given[-1]:
                        k = Sym("coeff", "num")
                        args["coeff"] = k
                    args.update(extra or {})
                    # spins/orbits are unrelated symbols: both relations are covered by evaluating with distinct sites
                    with_order(st, coord_order("a", "b", ("<", "=")))
                    v = c.call(F(fname), [a, b] if two else [a], args, st)
                    st.order = None
                    return term_is(c, st, v, mk(kw), k)
                c.run("particle factory", "%s%s %s given %s" % (fname, extra["which"].v if extra else "", form, given), fn, c.where(F(fname)))

    particle("CPFactory", ("spin", "orbit"), lambda k: [spec(c, t, s0, k.get("spin", Z), k.get("orbit", Z)) for t in "CA"], two=False)

    def hop(k):
        sp0, ob0 = k.get("spin0", Z), k.get("orbit0", Z)
        return [spec(c, "C", s0, sp0, ob0), spec(c, "A", s1, k.get("spin1", sp0), k.get("orbit1", ob0))]
    N4 = ("spin0", "spin1", "orbit0", "orbit1")
    particle("HoppingFactory", N4, hop)
    for w in ("h", "hole", "p", "particle"):
        t = "A" if w[0] == "h" else "C"
        particle("PairingFactory", N4, lambda k: [spec(c, t, s0, k.get("spin0", Z), k.get("orbit0", Z)), spec(c, t, s1, k.get("spin1", Z), k.get("orbit1", Z))],
                 {"which": Const(w)})
    # default selector: hole pairing
    def fn():
        st = c.fresh()
        v = c.call(F("PairingFactory"), [s0, s1], {}, st)
        return term_is(c, st, v, [spec(c, "A", s0, Z, Z), spec(c, "A", s1, Z, Z)], Const(1.0))
    c.run("particle factory", "PairingFactory default selector", fn, c.where(F("PairingFactory")))
    particle("HubbardFactory", ("orbit",), lambda k: [spec(c, t, s0, s, k.get("orbit", Z)) for s in (UP, DN) for t in "CA"], two=False)
    particle("CoulombFactory", N4, lambda k: [spec(c, t, s, k.get("spin" + i, Z), k.get("orbit" + i, Z)) for s, i in ((s0, "0"), (s1, "1")) for t in "CA"])
    # same-site hopping with equal states
    for given in itertools.product((0, 1), repeat=2):
        def fn():
            st = c.fresh()
            kw = opt(st, ("spin0", "orbit0"), given)
            v = c.call(F("HoppingFactory"), [s0, s0], dict(kw), st)
            sp, ob = kw.get("spin0", Z), kw.get("orbit0", Z)
            return term_is(c, st, v, [spec(c, "C", s0, sp, ob), spec(c, "A", s0, sp, ob)], Const(1.0))
        c.run("particle factory", "HoppingFactory on one state given %s" % (given,), fn, c.where(F("HoppingFactory")))

    # ------------------------------------------------------------ spin terms
    XYZ = "xyz"

    def spin_terms(fname, args, want, rel, kty, form="tuple"):
        def fn():
            st = c.fresh()
            with_order(st, coord_order("a", "b", rel))
            a, b = next((x, y) for n, x, y in forms(st) if n == form)
            kw = {}
            k = Const(1.0)
            if kty:
                k = kw["coeff"] = Sym("coeff", kty)
            v = c.call(F(fname), [a, b] + [Const(x) for x in args], kw, st)
            if fname == "HeisenbergFactory":
                g = c.items(v, st)
            else:
                g = [v]
            if len(g) != len(want):
                return False, "%d terms instead of %d" % (len(g), len(want))
            vs = []
            for x, (ts, f) in zip(g, want):
                if not is_instance(c, st, x, SS, "SpinInteraction"):
                    return (False if isinstance(x, (Ref, Const)) else None), "not a SpinInteraction"
                comp = components(c, st, x)
                if len(comp) != 2:
                    return False, "%d operators" % len(comp)
                ds = [sdesc(c, st, y) for y in comp]
                w = [Tup((Const(ts[0]), s0)), Tup((Const(ts[1]), s1))]
                if rel[0] == "=" and rel[1] == "=":
                    alts = [w]
                else:
                    alts = [w, w[::-1]]
                ok = Any([All([c.veq(p, q, st) for p, q in zip(ds, al)]) for al in alts])
                if ok is False:
                    return False, "operators %s instead of %s" % ([show(d) for d in ds], [show(d) for d in w])
                kk = c.do("x.coeff", st, x=x)
                s2 = st.copy()
                s2.order = None
                e = c.veq(kk, mul(k, Const(f)), s2)
                if e is False:
                    return False, "coefficient %s of %s" % (show(kk), ts)
                vs += [ok, e]
            return All(vs), ""
        c.run("spin factory", "%s %s site relation %s coefficient %s %s" % (fname, "".join(args), " ".join(rel), kty or "default", form), fn, c.where(F(fname)))

    for rel in (("<", "="), (">", "<"), ("=", "<"), ("=", ">"), ("=", "=")):
        for kty in (None, "num", "int"):
            spin_terms("HeisenbergFactory", (), [("zz", 1), ("pm", 0.5), ("mp", 0.5)], rel, kty)
            for al in XYZ:
                spin_terms("IsingFactory", (al,), [(al + al, 1)], rel, kty)
                for be in XYZ:
                    spin_terms("TwoSpinTermFactory", (al, be), [(al + be, 1)], rel, kty)
    spin_terms("HeisenbergFactory", (), [("zz", 1), ("pm", 0.5), ("mp", 0.5)], ("<", "="), "num", "array")
    spin_terms("IsingFactory", ("z",), [("zz", 1)], ("<", "="), "num", "list")

    def bad(fname, args, kw, label):
        def fn():
            st = c.fresh()
            return c.refuses(c.ip.run(F(fname), [s0, s1] + [Const(x) for x in args], {k: Const(v) for k, v in kw.items()}, st))
        c.run("selector", label, fn, c.where(F(fname)))
    for w in ("x", "", "P", "holes", None, 0):
        bad("PairingFactory", (), {"which": w}, "PairingFactory which=%r" % (w,))
    for al in ("p", "m", "X", "", "xy", None, 0):
        bad("IsingFactory", (al,), {}, "IsingFactory alpha=%r" % (al,))
        bad("TwoSpinTermFactory", (al, "x"), {}, "TwoSpinTermFactory alpha0=%r" % (al,))
        bad("TwoSpinTermFactory", ("x", al), {}, "TwoSpinTermFactory alpha1=%r" % (al,))
    return c.finish(EXPL, floor=40)
