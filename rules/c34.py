"""C34: documented parameters and defaults."""
import ast
from .common import *
from . import c16

EXPL = ("For every public function, constructor and method the parameters the documentation lists (names, order, defaults; table SIGNATURES, transcribed from the docstrings) are compared with the callable the module binds after import "
        "(decorators and caches looked through): every documented parameter is accepted by name and, where documented positionally, at its place, no further argument is required, and the abstract value of each default, folded in the state after import, equals the "
        "documented one. Module settings after import equal those installed by their setter with the documented default. The names re-exported by the packages denote the objects of their modules.")

SIGNATURES = r"""
[averages]
QuantumAverages(ket, operator)
TotalSpinMatrices(spin_num)
TotalSpinAverages(spin_num)
[bond]
set_float_point_precision(precision=4)
Bond.__init__(p0, p1, *, directional=True)
Bond.getLength(ndigits=None)
Bond.getDisplace(ndigits=None)
Bond.getAzimuth(radian=False, ndigits=None)
Bond.oppositeTo(other)
[hilbertspace]
SimpleHilbertSpace.__init__(states, number=-1)
SimpleHilbertSpace.base_vectors(*, container='array', sort=True)
HilbertSpace.__init__(*subspace_specifiers)
HilbertSpace.base_vectors(*, container='array', sort=True)
base_vectors(*subspace_specifiers, container='array', sort=True)
[indextable]
IndexTable.__init__(objects, *, start=0)
IndexTable.query_index(key)
IndexTable.query_object(index)
[lanczos]
set_threshold(threshold=0.0001)
KrylovRepresentation(M, vectors, v0, krylov_space_dim=200)
MultiKrylov(M, vectors, krylov_space_dim=200)
[line2d]
Line2D.__init__(p0, p1, *, tol=1e-10)
Line2D.PointsFactory(ratios=None)
Line2D.LocationRelation(point, *, tol=1e-10)
Line2D.ShowLocationRelation(point)
Line2D.Coordinate(known, which='x')
[polygon]
Polygon.__init__(vertices, *, tol=1e-10)
Polygon.LocationRelation(point, ref_point, *, tol=1e-10)
Polygon.ShowLocationRelation(point)
[rotation3d]
RotationX(theta, *, deg=False, inversion=False)
RotationY(theta, *, deg=False, inversion=False)
RotationZ(theta, *, deg=False, inversion=False)
RotationGeneral(axis, theta, *, deg=False, inversion=False)
RotationEuler(alpha, beta, gamma, *, deg=False, inversion=False)
[GreenFunction._GFSolver]
GFSolverExactSingle(omega, A, B, GE, HM, excited_states, eta=0.01, sign='+')
GFSolverExactMultiple(omegas, As, Bs, GE, HM, excited_states, eta=0.01, sign='+', structure='array')
GFSolverLanczosSingle(omega, A, B, GE, projected_matrices, projected_vectors, eta=0.01, sign='+')
GFSolverLanczosMultiple(omegas, As, Bs, GE, projected_matrices, projected_vectors, eta=0.01, sign='+', structure='array')
RGFSolverExactSingle(omega, A, B, GE, HM, excited_states, eta=0.01, sign='+')
RGFSolverExactMultiple(omegas, As, Bs, GE, HM, excited_states, eta=0.01, sign='+', structure='array')
RGFSolverLanczosSingle(omega, A, B, GE, projected_matrices, projected_vectors, eta=0.01, sign='+')
RGFSolverLanczosMultiple(omegas, As, Bs, GE, projected_matrices, projected_vectors, eta=0.01, sign='+', structure='array')
[lattice._lattice_database]
special_cluster(which)
lattice_generator(which, num0=1, num1=1, num2=1)
[lattice.lattice]
set_float_point_precision(precision=4)
Lattice.__init__(points, vectors, name='')
Lattice.getIndex(site, *, fold=False)
Lattice.getSite(index)
Lattice.decompose(site)
Lattice.show(scope=0, savefig=False)
Lattice.neighbor_distance(nth)
Lattice.bonds(nth, *, only=True, fold=False)
Lattice.in_cluster(site)
KPath(points, min_num=100, loop=True, return_indices=True)
ShowFirstBZ(As, scale=1)
[quantumoperator.factory]
Creator(site, spin=0, orbit=0)
Annihilator(site, spin=0, orbit=0)
CPFactory(site, *, spin=0, orbit=0, coeff=1.0)
HoppingFactory(site0, site1, *, spin0=0, spin1=None, orbit0=0, orbit1=None, coeff=1.0)
PairingFactory(site0, site1, *, spin0=0, spin1=0, orbit0=0, orbit1=0, coeff=1.0, which='h')
HubbardFactory(site, *, orbit=0, coeff=1.0)
CoulombFactory(site0, site1, *, spin0=0, spin1=0, orbit0=0, orbit1=0, coeff=1.0)
HeisenbergFactory(site0, site1, *, coeff=1.0)
IsingFactory(site0, site1, alpha, *, coeff=1.0)
TwoSpinTermFactory(site0, site1, alpha0, alpha1, *, coeff=1.0)
[quantumoperator.matrixrepr]
matrix_function(term, right_bases, *, left_bases=None, coeff=1.0, to_csr=True, special_tag='general')
[quantumoperator.particlesystem]
AoC.__init__(otype, site, spin=0, orbit=0)
AoC.getIndex(indices_table)
AoC.getStateIndex(indices_table)
AoC.tolatex(**kwargs)
AoC.show(**kwargs)
AoC.conjugate_of(other)
AoC.same_state(other)
AoC.derive(*, otype=None, site=None, spin=None, orbit=None)
AoC.matrix_repr(state_indices_table, right_bases, *, left_bases=None, to_csr=True)
NumberOperator.__init__(site, spin=0, orbit=0)
NumberOperator.getIndex(indices_table)
NumberOperator.getStateIndex(indices_table)
NumberOperator.tolatex(**kwargs)
NumberOperator.show(**kwargs)
NumberOperator.derive(*, site=None, spin=None, orbit=None)
NumberOperator.matrix_repr(state_indices_table, bases, *, to_csr=True)
ParticleTerm.__init__(aocs, coeff=1.0, *, classification='general')
ParticleTerm.tolatex(indices_table=None, **kwargs)
ParticleTerm.show(indices_table=None, **kwargs)
ParticleTerm.normalize(aocs)
ParticleTerm.matrix_repr(state_indices_table, right_bases, *, left_bases=None, coeff=None, to_csr=True)
[quantumoperator.quantumstate]
set_float_point_precision(precision=4)
SiteID.__init__(site)
SiteID.tolatex(*, site_index=None, ndigits=4, **kwargs)
SiteID.getIndex(indices_table)
StateID.__init__(site, spin=0, orbit=0)
StateID.tolatex(*, site_index=None, ndigits=4, spin_one_half=True, suppress_orbit=True, **kwargs)
[quantumoperator.spinsystem]
SpinOperator.__init__(otype, site)
SpinOperator.getIndex(indices_table)
SpinOperator.getSiteIndex(indices_table)
SpinOperator.tolatex(**kwargs)
SpinOperator.show(**kwargs)
SpinOperator.conjugate_of(other)
SpinOperator.same_site(other)
SpinOperator.derive(*, otype=None, site=None)
SpinOperator.matrix_function(operator, total_spin)
SpinOperator.matrix_repr(site_indices_table)
SpinInteraction.__init__(operators, coeff=1.0)
SpinInteraction.tolatex(indices_table=None, **kwargs)
SpinInteraction.show(indices_table=None, **kwargs)
SpinInteraction.matrix_function(operators, total_spin, coeff=1.0)
SpinInteraction.matrix_repr(site_indices_table, coeff=None)
[tools.Draw2DLattice]
show(which, num0=8, num1=8, *, mc='black', ms=6, lc='gray', lw=2, ls='solid', link=False, trim=False, save=True, path='', name=None)
[tools.PandC]
Permutation(n, k, repeat=False)
Combination(n, k, repeat=False)
[tools.TotalSpin]
TotalSpin(spin_num)
[tools.colorprint]
coloring(string, fg=None, bg=None, bold=False, color_scheme=8)
color_print(*objects, sep=' ', end='\n', file=None, flush=False, fg=None, bg=None, bold=False, color_scheme=8)
color_demo(with_bg=False, space_num=0)
[tools.runtimeenv]
RunTimeEnv.__init__(rd=False, path='.', threads_num=None)
"""

EXPORTS = {
    "": {"bond": ["Bond"], "hilbertspace": ["base_vectors"], "indextable": ["IndexTable"], "lanczos": ["KrylovRepresentation", "MultiKrylov"], "line2d": ["Line2D", "Location"],
         "rotation3d": ["RotationEuler", "RotationGeneral", "RotationX", "RotationY", "RotationZ"]},
    "lattice": {"lattice.lattice": ["Lattice", "KPath", "ShowFirstBZ", "set_float_point_precision"], "lattice._lattice_database": ["special_cluster", "lattice_generator"]},
    "quantumoperator": {
        "quantumoperator.constant": ["ANNIHILATION", "CREATION", "SPIN_DOWN", "SPIN_UP", "SPIN_X", "SPIN_Y", "SPIN_Z", "SPIN_P", "SPIN_M", "SPIN_MATRICES", "SIGMA_X", "SIGMA_Y", "SIGMA_Z", "SIGMA_P", "SIGMA_M", "SIGMA_MATRICES"],
        "quantumoperator.quantumstate": ["SiteID", "StateID", "set_float_point_precision"], "quantumoperator.particlesystem": ["AoC", "NumberOperator", "ParticleTerm"],
        "quantumoperator.spinsystem": ["SpinOperator", "SpinInteraction"],
        "quantumoperator.factory": ["Annihilator", "Creator", "CPFactory", "HoppingFactory", "PairingFactory", "HubbardFactory", "CoulombFactory", "HeisenbergFactory", "IsingFactory", "TwoSpinTermFactory"]},
    "GreenFunction": {"GreenFunction._GFSolver": [k + w for k in ("GFSolver", "RGFSolver") for w in ("ExactSingle", "ExactMultiple", "LanczosSingle", "LanczosMultiple")]},
}
# everything the packages offer is also offered by the top-level package, except the settings of the packages
TOP = {"lattice": ("set_float_point_precision",), "quantumoperator": ("set_float_point_precision",), "GreenFunction": ()}


def table():
    out, mod = [], None
    for l in SIGNATURES.strip().split("\n"):
        if l.startswith("["):
            mod = l[1:-1]
        else:
            name, rest = l.split("(", 1)
            out.append((mod, name, ast.parse("def f(%s: pass" % (rest + "")).body[0].args))
    return out


def unwrap(v):
    for _ in range(10):
        if isinstance(v, BoundV):
            v = v.func
        elif isinstance(v, WrapV) and v.kind in ("staticmethod", "classmethod", "cache"):
            v = v.f
        else:
            break
    return v


def bound(c, mod, name):
    """the callable documented under this name and whether its first parameter is filled by the instance or class"""
    st = c.fresh()
    parts = name.split(".")
    v = c.g("HamiltonianPy." + mod, parts[0])
    if v is None:
        raise Refuted("%s is not defined" % parts[0])
    if len(parts) == 1:
        return v, 0
    if not isinstance(v, ClassV):
        raise Refuted("%s is not a class" % parts[0])
    f, owner = v.info.lookup(parts[1])
    if f is None:
        if parts[1] == "__init__":
            raise Undecided("no constructor in the class hierarchy")
        raise Refuted("class %s has no method %s" % tuple(parts))
    if isinstance(f, WrapV) and f.kind == "staticmethod":
        return f, 0
    return f, 1


def judge(c, f, skip, doc, what):
    f = unwrap(f)
    if isinstance(f, WrapV) and f.kind == "property":
        raise Refuted("is a property, not a callable")
    if not isinstance(f, FuncV):
        if isinstance(f, (Const, Tup)):
            raise Refuted("is not callable")
        raise Undecided("form of the callable")
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    only = {x.arg for x in a.posonlyargs}
    dflt = dict(zip(pos[len(pos) - len(f.defaults):], f.defaults))
    dflt.update(f.kwdefaults)
    kwonly = [x.arg for x in a.kwonlyargs]
    pos = pos[skip:]
    dpos, dkw = [x.arg for x in doc.posonlyargs + doc.args], [x.arg for x in doc.kwonlyargs]
    ddef = dict(zip(dpos[len(dpos) - len(doc.defaults):], doc.defaults))
    ddef.update({x.arg: y for x, y in zip(doc.kwonlyargs, doc.kw_defaults) if y is not None})
    for i, n in enumerate(dpos):
        if i < len(pos) and pos[i] == n:
            yield "place of " + n, (n not in only or None), "cannot be given by name"
        elif i >= len(pos) and a.vararg:
            yield "place of " + n, None, "collected by *%s" % a.vararg.arg
        else:
            yield "place of " + n, False, "parameter %d is %s instead of %s" % (i + 1, pos[i] if i < len(pos) else "missing", n)
    for n in dkw:
        ok = n in kwonly or n in pos and n not in only
        yield "name of " + n, True if ok else None if a.kwarg else False, "keyword %s is not accepted" % n
    if doc.vararg:
        yield "any number", bool(a.vararg), "arguments are not collected"
    if doc.kwarg:
        yield "other keywords", bool(a.kwarg), "further keywords are refused"
    need = [n for n in pos + kwonly if n not in dflt and n not in dpos + dkw]
    yield "nothing else required", not need, "also requires %s" % ", ".join(need)
    st = c16.fresh(c)
    for n, d in ddef.items():
        if n not in dflt:
            if n in pos + kwonly:
                yield "default of " + n, False, "argument is required"
            else:
                yield "default of " + n, None, "handled by **kwargs"
            continue
        want, got = Const(ast.literal_eval(d)), dflt[n]
        if isinstance(got, Const):
            same = got.v == want.v and isinstance(got.v, str) == isinstance(want.v, str)
            if not same and got.v is None:
                yield "default of " + n, None, "None stands for the default"
            else:
                yield "default of " + n, same, "default is %r instead of %r" % (got.v, want.v)
        elif isinstance(got, (Sym, App, Poly)) and is_num(got) and isinstance(want.v, (int, float)):
            yield "default of " + n, c.num_eq(got, want, st), "default is %s" % show(got)
        else:
            yield "default of " + n, None, "default is %s" % show(got)[:60]


SETTINGS = [(QS, "set_float_point_precision", 4), (BO, "set_float_point_precision", 4), (LA, "set_float_point_precision", 4), (LZ, "set_threshold", 1e-4), (R3, "set_threshold", 1e-10)]


def check(c):
    c.rule("parameters", "documented parameters are accepted by name and place and nothing else is required")
    c.rule("defaults", "an optional argument left out has its documented default")
    c.rule("settings", "settings after import are the documented ones")
    c.rule("exports", "the packages re-export the objects of their modules under their names")
    for mod, name, doc in table():
        inst = "%s.%s" % (mod, name)
        box = []

        def get():
            box.append(bound(c, mod, name))
            return True
        if c.run("parameters", inst + " exists", get, "HamiltonianPy." + mod) is not True and not box:
            continue
        f, skip = box[0]
        try:
            w = c.where(unwrap(f))
        except Exception:
            w = "HamiltonianPy." + mod
        res = []

        def all_():
            res.extend(judge(c, f, skip, doc, inst))
            return True
        if c.run("parameters", inst + " is callable", all_, w) is True:
            for k, r, why in res:
                c.add("defaults" if k.startswith("default") else "parameters", "%s: %s" % (inst, k), r, w, "" if r is True else why)
    for mod, setter, value in SETTINGS:
        def fs():
            st = c16.fresh(c)
            before = c16.current(c, st, mod)
            if not before:
                raise Undecided("no setting of the module is known")
            c.do("f(x)", st, f=c.g(mod, setter), x=Const(value))
            after = c16.current(c, st, mod)
            for n in before:
                r = c.veq(before[n], after[n], st) if isinstance(before[n], Val) and isinstance(after[n], Val) else None
                if r is not True:
                    return r, "%s is %s after import and %s after setting the documented default" % (n, show(before[n])[:60], show(after[n])[:60])
            return True
        c.run("settings", "%s.%s(%r)" % (mod, setter, value), fs, c.where(c.g(mod, setter)))
    for pk, mods in EXPORTS.items():
        for m, names in mods.items():
            for n in names:
                for top in ([pk] + ([""] if pk and n not in TOP[pk] else [])):
                    def fe():
                        q = "HamiltonianPy" + ("." + top if top else "")
                        a, b = c.g(q, n), c.g("HamiltonianPy." + m, n)
                        if a == b:
                            return True
                        if type(a) != type(b) or isinstance(a, (ClassV, FuncV)):
                            return False, "%s.%s is %s instead of %s" % (q, n, show(a)[:60], show(b)[:60])
                        return c.veq(a, b, c.fresh()), "%s.%s is not the object of %s" % (q, n, m)
                    c.run("exports", "%s.%s" % (top or "HamiltonianPy", n), fe, "HamiltonianPy." + (top or "__init__"))
    return c.finish(EXPL, floor=500)
