"""C24: exact counts."""
import math

from .common import *

EXPL = ("Constant propagation (with Python's exact integer and IEEE float semantics) through Permutation and Combination for every admissible (n, k) up to n = 40 (80 in the thorough tier) and for large n up to 400, "
        "both repetition modes, and abstract evaluation of the argument checks for inadmissible arguments (negative, k > n, non-integers; symbolic n and k).")


def check(c):
    c.rule("count", "exact integer number of permutations / combinations, of type int")
    c.rule("refusal", "inadmissible arguments are refused")
    M = TL + ".PandC"
    P, C = c.g(M, "Permutation"), c.g(M, "Combination")
    pts = [(n, k) for n in range(0, 81 if c.thorough else 41) for k in range(0, n + 1)]
    pts += [(n, k) for n in (52, 64, 100, 171, 200, 250, 400) for k in (0, 1, 2, 5, n // 2, n - 1, n)]
    for v in sizes(c, (M,), 5, 4096, (), 12):
        pts += [(n, k) for n in (v - 1, v, v + 1, 2 * v) for k in {0, 1, 2, 3, v // 2, v - 1, v, v + 1, n // 2, n - 1, n} if 0 <= k <= n]
    pts = sorted(set(pts))
    for n, k in pts:
        for name, f, rep, want in (("Permutation", P, False, math.perm(n, k)), ("Permutation", P, True, n ** k), ("Combination", C, False, math.comb(n, k)),
                                   ("Combination", C, True, math.comb(n + k - 1, k) if k else 1)):
            def fn():
                st = c.fresh()
                out = c.ex("f(n, k, repeat=r)" if rep else "f(n, k)", st, f=f, n=Const(n), k=Const(k), r=Const(rep))
                r, why = c.returns(out)
                if r is not True:
                    return r, why
                v = out.value
                if not isinstance(v, Const):
                    return None, "not folded"
                if isinstance(v.v, bool) or not isinstance(v.v, int):
                    return False, "result %r of type %s" % (v.v, type(v.v).__name__)
                return v.v == want, "result %d instead of %d" % (v.v, want)
            c.run("count", "%s(%d, %d)%s" % (name, n, k, " with repetition" if rep else ""), fn, c.where(f))
    bad = [(3, 4), (-1, 0), (0, -1), (3, -1), (0, 1), (-3, -3), (5, 100), (2.0, 1), (2, 1.0), ("2", 1), (None, 1), (2, None), (2.5, 2)]
    for n, k in bad:
        for name, f in (("Permutation", P), ("Combination", C)):
            for rep in (False, True):
                c.run("refusal", "%s(%r, %r)%s" % (name, n, k, " with repetition" if rep else ""),
                      lambda: c.refuses(c.ex("f(n, k, repeat=r)", c.fresh(), f=f, n=Const(n), k=Const(k), r=Const(rep))), c.where(f))
    for name, f in (("Permutation", P), ("Combination", C)):
        for rep in (False, True):
            for what, facts in (("every n < 0", lambda n, k: [(cmp_num("lt", n, Const(0)), True)]), ("every k < 0", lambda n, k: [(cmp_num("lt", k, Const(0)), True)]),
                                ("every k > n", lambda n, k: [(cmp_num("gt", k, n), True), (cmp_num("lt", n, Const(0)), False)])):
                def fs():
                    st = c.fresh()
                    n, k = Sym("n", "int"), Sym("k", "int")
                    for a, v in facts(n, k):
                        st.assume(a, v)
                    return c.refuses(c.ex("f(n, k, repeat=r)", st, f=f, n=n, k=k, r=Const(rep)))
                c.run("refusal", "%s, %s%s" % (name, what, " with repetition" if rep else ""), fs, c.where(f))
    return c.finish(EXPL, floor=200)
