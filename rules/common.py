"""Builders of abstract inputs shared by the rule sets."""
import itertools

from hpa.obl import *

QS = "HamiltonianPy.quantumoperator.quantumstate"
PS = "HamiltonianPy.quantumoperator.particlesystem"
SS = "HamiltonianPy.quantumoperator.spinsystem"
MR = "HamiltonianPy.quantumoperator.matrixrepr"
CO = "HamiltonianPy.quantumoperator.constant"
FA = "HamiltonianPy.quantumoperator.factory"
BO = "HamiltonianPy.bond"
IT = "HamiltonianPy.indextable"
LA = "HamiltonianPy.lattice.lattice"
DB = "HamiltonianPy.lattice._lattice_database"
HS = "HamiltonianPy.hilbertspace"
LZ = "HamiltonianPy.lanczos"
GF = "HamiltonianPy.GreenFunction._GFSolver"
R3 = "HamiltonianPy.rotation3d"
AV = "HamiltonianPy.averages"
L2 = "HamiltonianPy.line2d"
PG = "HamiltonianPy.polygon"
TL = "HamiltonianPy.tools"

FLIP = {"<": ">", ">": "<", "=": "=", "~<": "~>", "~>": "~<"}
OTYPES = ("p", "m", "x", "y", "z")
RELS = ("=", "<", ">", "~<", "~>")


def csym(name, i):
    return Sym("%s%d" % (name, i), "float")


def coords(name, dim):
    return Tup(csym(name, i) for i in range(dim))


def nat(st, name):
    """non-negative integer symbol"""
    s = Sym(name, "int")
    st.facts[App("pos", (neg(s),), "bool")] = False
    return s


def effective(rel):
    """relation of the stored key: '=' also when the coordinates coincide at the set precision"""
    return "=" if rel in ("=", "~<", "~>") else rel


def lex(rels):
    for r in rels:
        r = effective(r)
        if r != "=":
            return r
    return "="


def site_relations(dim, full):
    if dim == 1 or full:
        return list(itertools.product(RELS, repeat=dim))
    out = [("=",) * dim]
    for i in range(dim):
        for r in RELS[1:]:
            v = ["="] * dim
            v[i] = r
            out.append(tuple(v))
            for j in range(i + 1, dim):
                for q in ("<", ">"):
                    w = list(v)
                    w[j] = q
                    out.append(tuple(w))
    return sorted(set(out))


def with_order(st, rel):
    st.order = OrderOracle(rel)
    return st


def coord_order(a, b, rels):
    return {(csym(a, i), csym(b, i)): r for i, r in enumerate(rels)}


def fields_of(c, ref, st):
    return st.rec(ref).fields


# ------------------------------------------------------------------ operators and terms
def enumv(c, name):
    return c.g(CO, name)


def otype_of(c, t):
    return c.g(CO, "CREATION" if t == "C" else "ANNIHILATION")


def aoc(c, st, t, name, dim=1, site=None):
    return c.call(c.g(PS, "AoC"), [otype_of(c, t), site or coords(name, dim)],
                  {"spin": nat(st, name + "_spin"), "orbit": nat(st, name + "_orbit")}, st)


def aoc_spec(c, t, name, dim=1):
    return Tup((otype_of(c, t), coords(name, dim), Sym(name + "_spin", "int"), Sym(name + "_orbit", "int")))


def desc(c, st, x):
    """public description of an AoC"""
    r = Tup(c.do("(x.otype, x.coordinate, x.spin, x.orbit)", st, x=x).items)
    s = c.do("(x.state.coordinate, x.state.spin, x.state.orbit)", st, x=x)
    if c.veq(Tup(r.items[1:]), s, st) is False:
        raise Refuted("operator and its state disagree")
    return c.freeze(r, st)


def sdesc(c, st, x):
    return c.freeze(c.do("(x.otype, x.coordinate)", st, x=x), st)


def components(c, st, term):
    v = c.do("x.components", st, x=term)
    return c.items(v, st)


def is_instance(c, st, x, mod, name):
    return isinstance(x, Ref) and isinstance(st.rec(x), ObjRec) and st.rec(x).cls.subclass_of(c.g(mod, name).info)


def term_is(c, st, term, ops, coeff, cls=(PS, "ParticleTerm"), describe=desc):
    """term has exactly these operator descriptions and coefficient"""
    if isinstance(term, Ite):
        return None, "undecided term"
    if not is_instance(c, st, term, *cls):
        return (False if isinstance(term, (Ref, Const, Tup)) else None), "result is not a %s" % cls[1]
    got = components(c, st, term)
    if len(got) != len(ops):
        return False, "%d operators instead of %d" % (len(got), len(ops))
    vs = []
    for i, (x, w) in enumerate(zip(got, ops)):
        d = describe(c, st, x)
        e = c.veq(d, w, st)
        if e is False:
            return False, "operator %d is %s instead of %s" % (i, show(d), show(w))
        vs.append(e)
    k = c.do("x.coeff", st, x=term)
    e = c.veq(k, coeff, st)
    if e is False:
        return False, "coefficient %s instead of %s" % (show(k), show(coeff))
    vs.append(e)
    return All(vs), ""


def spin_op(c, st, t, name, dim=1):
    return c.call(c.g(SS, "SpinOperator"), [Const(t), coords(name, dim)], {}, st)


def unchanged(c, st, before):
    """before: list of (value, frozen)"""
    for v, f in before:
        if c.freeze(v, st) != f:
            return False
    return True


# ------------------------------------------------------------------ text
def text_parts(v):
    """string value -> list of literal strings and ('val', value) pieces; None when it is not a text of known shape"""
    out = []

    def rec(x):
        if isinstance(x, Const):
            out.append(x.v if isinstance(x.v, str) else str(x.v))
        elif isinstance(x, App) and x.op in ("strcat",):
            for y in x.args:
                if not rec_ok(y):
                    return
        elif isinstance(x, App) and x.op in ("str", "repr", "format") and x.args:
            a = x.args[0]
            spec = x.args[1] if len(x.args) > 1 else Const("")
            if isinstance(a, Tup) and spec in (Const(""), ""):
                out.append("(")
                for i, y in enumerate(a.items):
                    if i:
                        out.append(", ")
                    rec(App("repr", (y, spec), "str"))
                out.append(",)" if len(a.items) == 1 else ")")
            elif isinstance(a, Const) and spec in (Const(""), ""):
                out.append(str(a.v) if x.op != "repr" else repr(a.v))
            else:
                out.append(("val", a))
        else:
            out.append(("val", x))

    def rec_ok(y):
        rec(y)
        return True
    rec(v)
    merged = []
    for p in out:
        if isinstance(p, str) and merged and isinstance(merged[-1], str):
            merged[-1] += p
        else:
            merged.append(p)
    return merged


def text_template(v, names):
    """one string with every embedded value replaced by \\x01name\\x01; names: [(value, name)]"""
    out = ""
    for p in text_parts(v):
        if isinstance(p, str):
            out += p
        else:
            for val, n in names:
                if p[1] == val:
                    out += "\x01%s\x01" % n
                    break
            else:
                out += "\x01?\x01"
    return out


def constants(c, mods):
    """every number the given modules mention, folded"""
    import ast

    def fold(e):
        if isinstance(e, ast.Constant):
            return e.value if type(e.value) in (int, float) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            a = fold(e.operand)
            return None if a is None else -a
        if isinstance(e, ast.BinOp):
            a, b = fold(e.left), fold(e.right)
            if a is None or b is None or abs(b) > 64 and isinstance(e.op, (ast.Pow, ast.LShift)):
                return None
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b, ast.FloorDiv: lambda: a // b}[type(e.op)]()
            except (KeyError, ValueError, TypeError, ArithmeticError):
                return None
        return None
    out = set()
    for m in mods:
        mod = c.ip.project.modules.get(m)
        if mod is not None:
            for n in ast.walk(mod.tree):
                v = fold(n) if isinstance(n, (ast.Constant, ast.BinOp, ast.UnaryOp)) else None
                if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) < 1e300:
                    out.add(v)
    return sorted(out)


def sizes(c, mods, lo, hi, always=(), keep=10):
    """sizes worth evaluating beyond the small ones: around every integer the given modules mention between lo and hi (switches to another algorithm, chunk lengths)"""
    found = {int(abs(v)) for v in constants(c, mods) if v == int(v) and lo - 1 <= abs(v) <= hi}
    out = set(always)
    for v in sorted(found):
        out |= {v, v + 1, v + 2, 2 * v + 1}     # at, just above and well above
    out = sorted(x for x in out if lo <= x <= hi + 1)
    if len(out) > keep and not c.thorough:
        step = len(out) / keep
        out = sorted({out[int(i * step)] for i in range(keep)} | set(x for x in always if lo <= x <= hi + 1))
    return out
