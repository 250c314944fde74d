"""Obligations: three-valued verdicts, evidence, known findings, reporting.

A verdict is True (established for every value of the symbols), False (a definite
counterexample in the abstract semantics: a decided difference, or two normal forms that
disagree at a sample point of the symbols) or None (the analysis could not decide).
"""
import ast
import cmath
import json
import math
import os
import random
import re
import sys
import time
import traceback

from .vals import *
from .state import *
from .interp import Interp, ExcVal, Outcome
from . import lib as L

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("HPA_EVID", HERE)
DEBUG = os.environ.get("HPA_DEBUG")


class NotEvaluable(Exception):
    pass


class Refuted(Exception):
    """a definite counterexample met while preparing an obligation"""


# ---------------------------------------------------------------- tri-valued logic
def All(*vs):
    vs = list(vs[0]) if len(vs) == 1 and not isinstance(vs[0], (bool, type(None))) else list(vs)
    if any(v is False for v in vs):
        return False
    return None if any(v is None for v in vs) else True


def Any(*vs):
    vs = list(vs[0]) if len(vs) == 1 and not isinstance(vs[0], (bool, type(None))) else list(vs)
    if any(v is True for v in vs):
        return True
    return None if any(v is None for v in vs) else False


def Not(v):
    return None if v is None else not v


# ---------------------------------------------------------------- evaluation of normal forms
SPECIAL = {
    "int": [0, 1, -1, 2, 3, 5, 7, -4, 10, 33],
    "float": [0.0, 1.0, -1.0, 0.37, -2.61, 0.5, 3.3, -0.123, 41.7, 1.9],
    "num": [0.0, 1.0, -1.0, 0.7 + 0.4j, -1.3 + 2.2j, 2.0, -0.31, 1j, 3.7 - 0.9j, -0.5j],
    "complex": [0.7 + 0.4j, -1.3 + 2.2j, 1j, 2 + 0j, -0.2 - 0.9j, 0j, 1.5 - 0.25j],
}
FREE_INPUT_OPS = ("getitem", "attr")


KINDS = {
    "int": ("int", "numbers.Integral", "numbers.Rational", "numbers.Real", "numbers.Complex"),
    "float": ("float", "numbers.Real", "numbers.Complex"),
    "complex": ("complex", "numbers.Complex"),
    "numpy.int64": ("numpy.int64", "numpy.signedinteger", "numpy.integer", "numpy.number", "numpy.generic", "numbers.Integral", "numbers.Rational", "numbers.Real", "numbers.Complex"),
    "numpy.float64": ("float", "numpy.float64", "numpy.floating", "numpy.inexact", "numpy.number", "numpy.generic", "numbers.Real", "numbers.Complex"),
    "numpy.float32": ("numpy.float32", "numpy.floating", "numpy.inexact", "numpy.number", "numpy.generic", "numbers.Real", "numbers.Complex"),
    "numpy.complex128": ("complex", "numpy.complex128", "numpy.complexfloating", "numpy.inexact", "numpy.number", "numpy.generic", "numbers.Complex"),
    "numpy.complex64": ("numpy.complex64", "numpy.complexfloating", "numpy.inexact", "numpy.number", "numpy.generic", "numbers.Complex"),
}


class Env:
    def __init__(self, seed, fixed=None):
        self.r = random.Random(seed)
        self.vals = dict(fixed or {})
        self.special = self.r.random() < 0.4
        self.kinds = {}
        self.pool = None        # magnitudes to draw from (samples around the thresholds of the forms)
        self.fmemo = {}
        self.base = None

    def kind(self, v):
        """python type of a general numeric symbol"""
        if v not in self.kinds:
            self.kinds[v] = self.r.choice(sorted(KINDS)) if self.r.random() < 0.6 else "complex"
        return self.kinds[v]

    def leaf(self, v):
        if v in self.vals:
            return self.vals[v]
        ty = tyof(v)
        r = self.r
        if isinstance(v, Sym) and v.name.startswith("setting:"):
            self.vals[v] = 10000
            return 10000
        if self.pool is not None:
            x = self.vals[v] = self.far_leaf(v, ty)
            return x
        if ty == "bool":
            x = r.random() < 0.5
        elif ty in ("int", "npint"):
            x = r.choice(SPECIAL["int"]) if self.special else r.randint(-9, 40)
        elif ty in ("float", "npfloat"):
            x = r.choice(SPECIAL["float"]) if self.special else r.uniform(-4, 4)
        elif ty == "num" and isinstance(v, Sym):
            k = self.kind(v)
            if k.startswith(("int", "numpy.int")):
                x = r.choice(SPECIAL["int"])
            elif "complex" in k:
                x = r.choice(SPECIAL["complex"]) if self.special else complex(r.uniform(-4, 4), r.uniform(-4, 4))
            else:
                x = r.choice(SPECIAL["float"]) if self.special else r.uniform(-4, 4)
        elif ty in ("num", "complex", "npcomplex"):
            x = r.choice(SPECIAL["num"]) if self.special else complex(r.uniform(-4, 4), r.uniform(-4, 4))
        else:
            raise NotEvaluable("symbol %s of type %s" % (show(v), ty))
        self.vals[v] = x
        return x

    def far_leaf(self, v, ty):
        r = self.r
        k = self.kind(v) if ty == "num" and isinstance(v, Sym) else {"int": "int", "npint": "int", "float": "float", "npfloat": "float"}.get(ty, "complex")
        if ty == "bool":
            return r.random() < 0.5
        if ty not in NUMT:
            raise NotEvaluable("symbol %s of type %s" % (show(v), ty))

        if self.base is None:
            self.base = r.choice(self.pool) * r.choice((0.01, 0.3, 0.9, 1.1, 3, 100)) if r.random() < 0.4 else 0

        def real():
            if self.base:       # all numbers of one magnitude
                return self.base * r.uniform(-1, 1)
            if r.random() < 0.4:
                return r.uniform(-4, 4)
            return r.choice(self.pool) * r.choice((0.01, 0.3, 0.9, 1.1, 3, 100)) * r.choice((1, 1, -1))
        if k.startswith(("int", "numpy.int")):
            if r.random() < 0.4:
                return r.choice(SPECIAL["int"])
            x = int(min(r.choice(self.pool) * r.choice((0.5, 1, 1, 2, 30)), 1e7)) + r.choice((-1, 0, 1))
            return -x if r.random() < 0.2 else x
        if "complex" not in k:
            return real()
        q = r.random()
        if q < 0.2:
            return complex(real(), 0)
        if q < 0.3:
            return complex(0, real())
        if q < 0.5:
            x = real()
            return complex(x, x * r.uniform(-2, 2))
        return complex(real(), real())


def numeval(v, env, memo=None):
    if env.pool is not None:
        return fareval(v, env)[0]
    memo = {} if memo is None else memo
    if v in memo:
        return memo[v]
    r = _numeval(v, env, memo)
    memo[v] = r
    return r


def _numeval(v, env, memo):
    ev = lambda x: numeval(x, env, memo)
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Sym):
        if v.name.startswith(("nondet", "inexact", "<")):
            raise NotEvaluable(v.name)
        return env.leaf(v)
    if isinstance(v, Poly):
        s = 0
        for m, c in v.terms:
            t = c
            for a, n in m:
                x = ev(a)
                if isinstance(x, bool):
                    x = int(x)
                if not isinstance(x, (int, float, complex)):
                    raise NotEvaluable("non-numeric factor")
                t = t * x ** n
            s = s + t
        if v.ty == "bool":
            if abs(s - round(s.real if isinstance(s, complex) else s)) > 1e-9:
                raise NotEvaluable("boolean form not 0/1")
            return abs(s) > 0.5
        return s
    if isinstance(v, BitsV):
        return sum(int(bool(ev(b))) << i for i, b in enumerate(v.bits))
    if isinstance(v, Ite):
        return ev(v.a) if ev(v.c) else ev(v.b)
    if isinstance(v, Tup):
        return tuple(ev(x) for x in v.items)
    if isinstance(v, App):
        op = v.op
        if op in ("list", "arr"):
            return (op,) + tuple(ev(x) for x in v.args)
        if op in ("set", "frozenset", "dict", "OrderedDict"):
            return (op,) + tuple(sorted((ev(x) for x in v.args), key=repr))
        if op in ("zero", "pos"):
            x = ev(v.args[0])
            if op == "zero":
                if 0 < abs(x) < 1e-7:
                    raise NotEvaluable("near-tie")
                return abs(x) == 0
            if isinstance(x, complex):
                if abs(x.imag) > 1e-9:
                    raise NotEvaluable("order of complex")
                x = x.real
            if 0 < abs(x) < 1e-7:
                raise NotEvaluable("near-tie")
            return x > 0
        if op in FREE_INPUT_OPS and isinstance(v.args[0], Sym) and v.ty in NUMT and all(isinstance(a, (Const, str)) for a in v.args[1:]):
            return env.leaf(v)
        if op == "isinstance" and isinstance(v.args[0], Sym) and v.args[0].ty == "num" and getattr(v.args[1], "name", None):
            return v.args[1].name in KINDS[env.kind(v.args[0])]
        if op == "paren":
            return ev(v.args[0])
        if op == "conj":
            x = ev(v.args[0])
            return complex(x).conjugate() if isinstance(x, complex) else x
        if op in ("sin", "cos", "tan", "exp", "sqrt", "abs", "acos", "asin", "atan", "log"):
            x = ev(v.args[0])
            if op == "abs":
                return abs(x)
            if isinstance(x, complex) and abs(x.imag) > 0:
                if op in ("acos", "asin", "atan", "log", "sqrt"):
                    raise NotEvaluable(op)
                return getattr(cmath, op)(x)
            return getattr(math, op)(x.real if isinstance(x, complex) else x)
        if op == "atan2":
            return math.atan2(ev(v.args[0]), ev(v.args[1]))
        if op in ("f32", "f16", "c64"):
            from .lib import float_round
            x = complex(ev(v.args[0]))
            n = 16 if op == "f16" else 32
            return float_round(x.real, n) if op[0] == "f" else complex(float_round(x.real, n), float_round(x.imag, n))
        if op == "real":
            x = ev(v.args[0])
            return x.real
        if op == "imag":
            x = ev(v.args[0])
            return x.imag
        if op in ("int", "rint", "floor", "ceil", "trunc", "round") and len(v.args) == 1:
            x = ev(v.args[0])
            if isinstance(x, complex):
                raise NotEvaluable(op)
            return {"int": int, "rint": round, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[op](x)
        if op in ("mod", "floordiv") and len(v.args) == 2:
            x, y = ev(v.args[0]), ev(v.args[1])
            if not isinstance(x, int) or not isinstance(y, int) or y == 0:
                raise NotEvaluable(op)
            return x % y if op == "mod" else x // y
        if op == "pow":
            return ev(v.args[0]) ** ev(v.args[1])
        if op in ("max", "min") and len(v.args) > 1:
            xs = [ev(x) for x in v.args]
            if not all(isinstance(x, (int, float)) for x in xs):
                raise NotEvaluable(op)
            return max(xs) if op == "max" else min(xs)
        raise NotEvaluable("operation %s" % op)
    raise NotEvaluable(type(v).__name__)


# evaluation with a bound of the rounding error: used for samples of any magnitude
EPS = 2.3e-16
SURE = 1e3          # a sign / a difference counts when it exceeds this many error bounds


def fareval(v, env):
    """(value, bound of the rounding error); tuples give a tuple of such pairs"""
    m = env.fmemo
    if v in m:
        return m[v]
    x, e = _fareval(v, env)
    if isinstance(x, (int, float, complex)) and not isinstance(x, bool):
        if not abs(x) < 1e60 or not e < 1e60:
            raise NotEvaluable("overflow")
    m[v] = (x, e)
    return x, e


def _sure_sign(x, e, what="near-tie"):
    """-1, 0, 1 (0 only for an exact zero)"""
    if isinstance(x, complex):
        if x.imag != 0:
            raise NotEvaluable("order of complex")
        x = x.real
    if x == 0 and e == 0:
        return 0
    if abs(x) <= SURE * e:
        raise NotEvaluable(what)
    return 1 if x > 0 else -1


def _fareval(v, env):
    ev = lambda x: fareval(x, env)
    if isinstance(v, Const):
        return v.v, 0.0
    if isinstance(v, Sym):
        if v.name.startswith(("nondet", "inexact", "<")):
            raise NotEvaluable(v.name)
        return env.leaf(v), 0.0
    if isinstance(v, Poly):
        s, err, big, n_t = 0, 0.0, 0.0, 0
        for m, c in v.terms:
            t, rel = c, 0.0
            for a, n in m:
                x, e = ev(a)
                if isinstance(x, bool):
                    x = int(x)
                if not isinstance(x, (int, float, complex)):
                    raise NotEvaluable("non-numeric factor")
                if x == 0:
                    if e:
                        raise NotEvaluable("uncertain zero")
                elif e:
                    rel += abs(n) * e / abs(x)
                t = t * x ** n
            exact = isinstance(t, int)
            err += abs(t) * (rel + (0.0 if exact else 4 * EPS * (1 + sum(abs(n) for _, n in m))))
            if not exact:
                big = max(big, abs(t))
            s = s + t
            n_t += 1
        if n_t > 1:
            err += big * n_t * EPS
        if v.ty == "bool":
            if abs(s - round(s.real if isinstance(s, complex) else s)) > 1e-9:
                raise NotEvaluable("boolean form not 0/1")
            return abs(s) > 0.5, 0.0
        return s, err
    if isinstance(v, BitsV):
        return sum(int(bool(ev(b)[0])) << i for i, b in enumerate(v.bits)), 0.0
    if isinstance(v, Ite):
        return ev(v.a) if ev(v.c)[0] else ev(v.b)
    if isinstance(v, Tup):
        return tuple(ev(x) for x in v.items), 0.0
    if isinstance(v, App):
        op = v.op
        if op in ("list", "arr"):
            return (op,) + tuple(ev(x) for x in v.args), 0.0
        if op in ("zero", "pos"):
            s = None
            if op == "zero":
                x, e = ev(v.args[0])
                if isinstance(x, complex):
                    if x == 0 and e == 0:
                        return True, 0.0
                    if abs(x) <= SURE * e:
                        raise NotEvaluable("near-tie")
                    return False, 0.0
                return _sure_sign(x, e) == 0, 0.0
            return _sure_sign(*ev(v.args[0])) > 0, 0.0
        if op in FREE_INPUT_OPS and isinstance(v.args[0], Sym) and v.ty in NUMT and all(isinstance(a, (Const, str)) for a in v.args[1:]):
            return env.leaf(v), 0.0
        if op == "isinstance" and isinstance(v.args[0], Sym) and v.args[0].ty == "num" and getattr(v.args[1], "name", None):
            return v.args[1].name in KINDS[env.kind(v.args[0])], 0.0
        if op == "paren":
            return ev(v.args[0])
        if op == "conj":
            x, e = ev(v.args[0])
            return (x.conjugate() if isinstance(x, complex) else x), e
        if op == "abs":
            x, e = ev(v.args[0])
            return abs(x), e + (2 * EPS * abs(x) if isinstance(x, complex) else 0.0)
        if op in ("real", "imag"):
            x, e = ev(v.args[0])
            return getattr(x, op), e
        if op in ("sin", "cos", "exp", "sqrt", "acos", "asin", "atan", "log", "tan"):
            x, e = ev(v.args[0])
            if isinstance(x, complex):
                if x.imag != 0:
                    if op not in ("exp", "sin", "cos"):
                        raise NotEvaluable(op)
                    y = getattr(cmath, op)(x)
                    return y, math.exp(abs(x)) * e + 4 * EPS * abs(y)
                x = x.real
            y = getattr(math, op)(x)
            if op == "sqrt":
                if x == 0:
                    if e:
                        raise NotEvaluable("uncertain zero")
                    return 0.0, 0.0
                d = 0.5 / y
            elif op in ("sin", "cos", "atan"):
                d = 1.0
            elif op == "exp":
                d = y
            elif op == "log":
                d = 1 / abs(x)
            elif op == "tan":
                d = 1 + y * y
            else:
                if abs(x) >= 1 - 1e-9:
                    raise NotEvaluable("edge of %s" % op)
                d = 1 / math.sqrt(1 - x * x)
            return y, 2 * d * e + 4 * EPS * abs(y) + (2 * EPS * abs(x) if op in ("sin", "cos", "tan") else 0.0)
        if op == "atan2":
            (y, e1), (x, e2) = ev(v.args[0]), ev(v.args[1])
            h = math.hypot(x, y)
            if h == 0 or (x <= 0 and abs(y) <= SURE * e1 and e1):
                raise NotEvaluable("cut of atan2")
            return math.atan2(y, x), (e1 + e2) / h + 4 * EPS * math.pi
        if op in ("int", "rint", "floor", "ceil", "trunc", "round") and len(v.args) == 1:
            x, e = ev(v.args[0])
            if isinstance(x, complex):
                raise NotEvaluable(op)
            f = x - math.floor(x)
            near = min(f, 1 - f) if op not in ("rint", "round") else abs(f - 0.5)
            if e and near <= SURE * e:
                raise NotEvaluable("near-tie")
            return {"int": int, "rint": round, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round}[op](x), 0.0
        if op == "round" and len(v.args) == 2:
            (x, e), (n, _) = ev(v.args[0]), ev(v.args[1])
            if not isinstance(n, int):
                raise NotEvaluable(op)

            def rnd(t):
                u = t * 10.0 ** n
                if e and abs(u - math.floor(u) - 0.5) <= SURE * e * 10.0 ** n:
                    raise NotEvaluable("near-tie")
                return round(t, n)
            return (complex(rnd(x.real), rnd(x.imag)) if isinstance(x, complex) else rnd(x)), 2 * EPS * abs(x)
        if op in ("mod", "floordiv") and len(v.args) == 2:
            x, y = ev(v.args[0])[0], ev(v.args[1])[0]
            if not isinstance(x, int) or not isinstance(y, int) or y == 0:
                raise NotEvaluable(op)
            return (x % y if op == "mod" else x // y), 0.0
        if op in ("max", "min") and len(v.args) > 1:
            xs = [ev(x) for x in v.args]
            if not all(isinstance(x, (int, float)) for x, _ in xs):
                raise NotEvaluable(op)
            return (max if op == "max" else min)(xs)[0], max(e for _, e in xs)
        raise NotEvaluable("operation %s" % op)
    raise NotEvaluable(type(v).__name__)


def _apart(p, q):
    """the two evaluated values differ by more than rounding and by more than a relative 1e-6"""
    (x, ex), (y, ey) = p, q
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return True
        return any((a != b) if isinstance(a, str) or isinstance(b, str) else _apart(a, b) for a, b in zip(x, y))
    if isinstance(x, tuple) or isinstance(y, tuple):
        return True
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x != y
    if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
        return x != y
    return abs(x - y) > SURE * (ex + ey) + 1e-6 * max(abs(x), abs(y))


def thresholds(vals, limit=4000):
    """the magnitudes at which a condition inside these forms changes its answer"""
    out, seen, todo = set(), set(), list(vals)

    def add_(c):
        c = abs(c)
        if 1e-16 < c < 1e16:
            out.add(float(c))
    while todo and len(seen) < limit:
        v = todo.pop()
        if not isinstance(v, Val) or v in seen:
            continue
        seen.add(v)
        if isinstance(v, Poly):
            for m, _ in v.terms:
                for a, _n in m:
                    todo.append(a)
        elif isinstance(v, Ite):
            todo += [v.c, v.a, v.b]
        elif isinstance(v, Tup):
            todo += list(v.items)
        elif isinstance(v, BitsV):
            todo += list(v.bits)
        elif isinstance(v, App):
            todo += [a for a in v.args if isinstance(a, Val)]
            if v.op in ("pos", "zero") and isinstance(v.args[0], Poly):
                t = [(m, c) for m, c in v.args[0].terms]
                if len(t) > 1:
                    c0 = [c for m, c in t if not m]
                    for m, c in t:
                        for d in (c0 or [q for n, q in t if n != m]):
                            if not m or not c:
                                continue
                            z = abs(d / c)
                            add_(z)
                            add_(z ** 0.5)
                            if z:
                                add_(1 / z)
            elif v.op in ("max", "min"):
                for a in v.args:
                    if isinstance(a, Const) and isinstance(a.v, (int, float)):
                        add_(a.v)
            elif v.op == "round" and len(v.args) == 2 and isinstance(v.args[1], Const) and isinstance(v.args[1].v, int):
                add_(10.0 ** -v.args[1].v)
    return sorted(out)


def far_samples(pre, vals, n=160, order=None):
    """sample points whose numbers lie on both sides of every threshold of the forms, of any magnitude"""
    hints = thresholds(list(vals) + [c for c, _ in pre])
    if not hints:
        return
    pool = list(hints)
    for s in range(n):
        fx = None
        if order is not None and order.rel:
            r = random.Random(s * 104729 + 7)
            fx = far_order_point(order, r, pool) if s % 3 else order_point(order, r)
            if fx is None:
                continue
        env = Env(s * 6421 + 29, fx)
        env.pool = pool
        try:
            if all(bool(fareval(c, env)[0]) == pol for c, pol in pre):
                yield env
        except ERRS:
            continue


def _close(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_close(a, b) for a, b in zip(x, y))
    if isinstance(x, tuple) or isinstance(y, tuple):
        return False
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    try:
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
            return x == y
        return abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y))
    except TypeError:
        return x == y
    except OverflowError:
        raise NotEvaluable("overflow")


ERRS = (NotEvaluable, ZeroDivisionError, ValueError, OverflowError, TypeError, ArithmeticError, RecursionError)


def order_point(order, r):
    """numbers for the atoms of an order partition that satisfy its relations; None when not found"""
    atoms = []
    for a, b in order.rel:
        for x in (a, b):
            if x not in atoms:
                atoms.append(x)
    if not all(isinstance(x, Sym) and x.ty in ("int", "float", "num") for x in atoms):
        return None
    # identical atoms share a level; a coordinate is level + tiny offset below the set precision
    level, off = {}, {}
    for x in atoms:
        ok = False
        for _ in range(60):
            if x.ty == "int":
                lv = r.choice((0, 1, 2, 3, 4, 5)) if r.random() < 0.8 else r.randint(0, 40)
                of = 0
            else:
                lv = r.choice((-3, -2, -1, 0, 1, 2, 3, 0.5, -1.5, 2.25))
                of = r.choice((0, 1, 2, 3, 4, 5, 6))
            good = True
            for y in level:
                q = order.rel.get((x, y))
                if q is None:
                    continue
                if q == "=":
                    lv, of = level[y], off[y]
                    break
                if q in ("~<", "~>"):
                    lv = level[y]
            for y in level:
                q = order.rel.get((x, y))
                if q is None:
                    continue
                ly, oy = level[y], off[y]
                good = good and {"<": lv < ly, ">": lv > ly, "=": (lv, of) == (ly, oy), "~<": lv == ly and of < oy, "~>": lv == ly and of > oy}[q]
            if good:
                level[x], off[x] = lv, of
                ok = True
                break
        if not ok:
            return None
    return {x: (level[x] if x.ty == "int" else level[x] + 2e-5 + off[x] * 2e-6) for x in atoms}


def far_order_point(order, r, pool):
    """numbers of any distance that satisfy the relations of an order partition (cells of width 1e-4)"""
    atoms = []
    for a, b in order.rel:
        for x in (a, b):
            if x not in atoms:
                atoms.append(x)
    if not all(isinstance(x, Sym) and x.ty in ("int", "float", "num") for x in atoms):
        return None

    def rel(a, b):
        ca, cb = int(a * 10000), int(b * 10000)
        return ("<" if ca < cb else ">") if ca != cb else ("=" if a == b else ("~<" if a < b else "~>"))
    val = {}
    steps = list(pool) + [1e-9, 1e-6, 3e-5, 1e-3, 1, 1e4]
    for x in atoms:
        want = [(val[y], order.rel.get((x, y))) for y in val]
        for _ in range(200):
            near = [v for v, q in want if q is not None]
            eq = [v for v, q in want if q == "="]
            if eq:
                c = eq[0]
            elif x.ty == "int":
                c = r.choice((0, 1, 2, 3, 5, 9, 100, 70000))
            elif near and r.random() < 0.7:
                c = r.choice(near) + r.choice((-1, 1)) * r.choice(steps) * r.choice((0.3, 1.1, 3))
            else:
                c = r.choice((0.25e-4, 1 + 0.5e-4, -1 - 0.5e-4, 2.75e-4, 1e3 + 0.25e-4, 3 - 1e-7))
            if x.ty == "int":
                ok = all(q is None or q == ("<" if c < v else ">" if c > v else "=") for v, q in want)
            else:
                ok = abs(c) < 1e8 and all(q is None or q == rel(c, v) for v, q in want)
            if ok:
                val[x] = c
                break
        else:
            return None
    return val


def samples(pre, n=60, fixed=None, order=None):
    """sample environments that satisfy the facts `pre` [(cond, bool)]"""
    for s in range(n):
        fx = fixed
        if order is not None and order.rel:
            pt = order_point(order, random.Random(s * 104729 + 7))
            if pt is None:
                continue
            fx = dict(fixed or {})
            fx.update(pt)
        env = Env(s * 7919 + 13, fx)
        memo = {}
        ok = True
        for c, pol in pre:
            try:
                if bool(numeval(c, env, memo)) != pol:
                    ok = False
                    break
            except ERRS:
                ok = False
                break
        if ok:
            yield env, memo


def pre_of(st):
    """assumptions under which the analysis runs, as evaluable conditions"""
    out = []
    for a, v in st.facts.items():
        if isinstance(a, App) and a.op == "pos" and isinstance(a.args[0], Sym) and a.args[0].name.startswith("setting:"):
            continue
        out.append((a, v))
    return out


def differ(a, b, pre, order=None, n=60):
    """True when some admissible sample point separates the two forms; None otherwise"""
    for env, memo in samples(pre, n, order=order):
        try:
            x, y = numeval(a, env, memo), numeval(b, env, memo)
            if not _close(x, y):
                return env
        except ERRS:
            continue
    for env in far_samples(pre, (a, b), order=order):
        try:
            if _apart(fareval(a, env), fareval(b, env)):
                return env
        except ERRS:
            continue
    return None


def show_env(env):
    return ", ".join("%s=%s" % (show(k), ("%.4g" % v) if isinstance(v, float) else v) for k, v in sorted(env.vals.items(), key=lambda t: show(t[0])))[:300]


# ---------------------------------------------------------------- obligations
_EXPR = {}


class Obl:
    __slots__ = ("rule", "inst", "verdict", "where", "why")

    def __init__(self, rule, inst, verdict, where, why):
        self.rule, self.inst, self.verdict, self.where, self.why = rule, inst, verdict, where, why

    @property
    def key(self):
        return "%s | %s" % (self.rule, self.inst)


BENIGN = {"print", "path", "os", "sys", "shutil", "pathlib", "matplotlib", "mkl", "traceback", "logging", "kdtree", "scipy", "file", "warnings", "numba", "time", "pickle", "builtins"}
NUMPY_CHECKS = {"testing", "broadcast_shapes", "can_cast", "result_type", "promote_types", "core", "lib", "asarray_chkfinite", "require", "ndim", "broadcast_to", "broadcast", "broadcast_arrays", "vectorize"}


def unresolved_call(out):
    """a call on the path which the models do not cover and which may itself refuse the arguments"""
    if isinstance(out.value, Opaque):
        return "the call that gives " + show(out.value)[:60]
    for e in out.st.effects:
        if isinstance(e[0], str) and e[0].startswith("call:"):
            parts = e[0][5:].split(".")
            if parts[0] == "numpy":
                if len(parts) > 1 and parts[1] in NUMPY_CHECKS:
                    return e[0][5:]
            elif parts[0] not in BENIGN:
                return e[0][5:][:60]
    return None


class TooLong(BaseException):
    """raised in the analysis by the watcher of check.py when one obligation takes too long"""


WATCH = [None]


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obls = []
        self.notes = []
        self.rules = {}
        self.ip = Interp()
        for m in sorted(self.ip.project.modules):
            if ".demo" not in m:
                try:
                    self.ip.module(m)
                except Exception as e:      # a module that cannot be analysed
                    self.notes.append("module %s not evaluated: %s" % (m, type(e).__name__))
        self.analysed = set()
        self.budget = 780.0
        self.slow = 0
        self.last = ""

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------ shortcuts
    def g(self, mod, name):
        return self.ip.g(mod, name)

    def fresh(self):
        return self.ip.fresh()

    def rule(self, name, text):
        self.rules[name] = text

    def where(self, v):
        """source position of a function / class value"""
        try:
            if isinstance(v, BoundV):
                v = v.func
            if isinstance(v, WrapV):
                v = v.f
            if isinstance(v, FuncV):
                m = self.ip.project.modules.get(v.mod)
                return "%s:%d %s" % (m.rel if m else v.mod, v.node.lineno, v.qual)
            if isinstance(v, ClassV):
                m = self.ip.project.modules.get(v.info.mod)
                return "%s:%d %s" % (m.rel if m else "", v.info.node.lineno, v.info.name)
        except Exception:
            pass
        return ""

    def cls_method(self, mod, cls, meth):
        c = self.g(mod, cls)
        f, owner = c.info.lookup(meth)
        return f

    def add(self, rule, inst, verdict, where="", why=""):
        self.obls.append(Obl(rule, inst, verdict, where, why))
        if where:
            self.analysed.add(where)
        if DEBUG and verdict is not True:
            print("  [%s] %s | %s :: %s (%s)" % ({False: "REFUTED", None: "undecided"}[verdict], rule, inst, why, where))

    def run(self, rule, inst, fn, where=""):
        """evaluate an obligation; fn returns verdict or (verdict, why)"""
        if time.time() - self.t0 > self.budget:
            self.add(rule, inst, None, where, "time budget of the check used up")
            return None
        why = ""
        try:
            # no obligation may use up the time of the others (forms can grow without bound)
            WATCH[0] = time.time() + max(5.0 if self.slow < 5 else 1.0, min((300.0 if self.thorough else 90.0) / 2 ** self.slow, (self.budget - (time.time() - self.t0)) / 5))
            t1 = time.time()
            try:
                r = fn()
            finally:
                WATCH[0] = None
                if DEBUG and time.time() - t1 > 5:
                    print("slow %.1f s: %s | %s" % (time.time() - t1, rule, inst))
            if isinstance(r, tuple):
                r, why = r[0], r[1]
        except TooLong:
            self.slow += 1
            r, why = None, "time limit of one obligation"
        except Refuted as e:
            r, why = False, str(e)
        except Undecided as e:
            r, why = None, "undecided: %s" % e
        except Dead:
            r, why = None, "no path reaches this point"
        except (RecursionError, MemoryError):
            r, why = None, "analysis too deep"
        except Exception as e:
            if DEBUG:
                traceback.print_exc()
            r, why = None, "analysis failure %s: %s" % (type(e).__name__, e)
        self.add(rule, inst, r, where, why)
        return r

    # ------------------------------------------------------------ abstract evaluation
    def ex(self, src, st, mod=None, **env):
        """evaluate a python expression over abstract values"""
        t = _EXPR.get(src)
        if t is None:
            t = _EXPR[src] = ast.parse(src, mode="eval").body
        ip = self.ip
        fr = ip.top(mod)
        ip.steps = 0
        st.locals[fr.fid] = dict(env)
        try:
            v, ok = ip.eval(t, fr, st), True
        except Dead:
            v, ok = None, False
        if ok:
            st.locals.pop(fr.fid, None)
        return Outcome(v if ok else None, st if ok else None, [(e[1], e[2], e[3]) for e in fr.exits if e[0] == "raise"], ip)

    def do(self, src, st, pre=None, mod=None, **env):
        """evaluate; the evaluation has to succeed on every input"""
        return self.ok(self.ex(src, st, mod, **env), src, pre)

    def ok(self, out, what="call", pre=None):
        r, why = self.returns(out, pre)
        if r is False:
            raise Refuted("%s %s" % (what, why))
        if r is None:
            raise Undecided("%s %s" % (what, why))
        return out.value

    def call(self, f, args, kw=None, st=None, pre=None, what=None):
        return self.ok(self.ip.run(f, args, kw, st), what or getattr(f, "name", None) or show(f)[:60], pre)

    # ------------------------------------------------------------ outcomes
    def definite_raises(self, out, pre=None):
        """(exception names, witness) of a raise that certainly happens for some admissible input, or None"""
        if not out.raises:
            return None
        pre = pre or []
        for v, s, n in out.raises:
            names = self.ip.exc_class_names(v, s)
            if names[:1] == ["?"]:
                continue
            conds = list(s.path)
            if not conds and not out.ok and len(out.raises) == 1:
                return names, "always", n
            if not conds:
                return names, "always", n
            for env, memo in samples(pre + pre_of(s), 80, order=s.order):
                try:
                    if all(bool(numeval(c, env, memo)) == pol for c, pol in conds):
                        return names, show_env(env), n
                except ERRS:
                    continue
            for env in far_samples(pre + pre_of(s), [c for c, _ in conds], 80, s.order):
                try:
                    if all(bool(fareval(c, env)[0]) == pol for c, pol in conds):
                        return names, show_env(env), n
                except ERRS:
                    continue
        if not out.ok and all(self.ip.exc_class_names(v, s)[:1] != ["?"] for v, s, n in out.raises):
            v, s, n = out.raises[0]
            return self.ip.exc_class_names(v, s), "every path raises", n
        return None

    def returns(self, out, pre=None):
        """True: certainly returns; (False, why): certainly raises for some input; None"""
        if out.ok and not out.raises:
            return True, ""
        d = self.definite_raises(out, pre)
        if d is not None:
            return False, "raises %s (line %s) when %s" % (d[0][0], getattr(d[2], "lineno", "?"), d[1])
        return None, "may raise %s" % ",".join(out.exc_short())

    def refuses(self, out, names=None, pre=None):
        """every path raises one of `names` (any exception when None)"""
        if not out.ok:
            if not out.raises:
                return None, "no outcome"
            bad = []
            for v, s, n in out.raises:
                c = self.ip.exc_class_names(v, s)
                if c[:1] == ["?"]:
                    return None, "unknown exception"
                if names and not set(c) & set(names):
                    bad.append(c[0])
            if bad:
                return False, "fails with %s instead of %s" % (",".join(sorted(set(bad))), "/".join(names))
            return True, ""
        if not out.raises:
            u = unresolved_call(out)
            if u:
                return None, "not refused, unless %s does" % u
            return False, "is accepted (returns %s)" % show(self.ip.freeze(out.value, out.st))[:120]
        # conditional: look for an input on which no raise condition holds
        for env, memo in samples((pre or []) + pre_of(out.st), 80, order=out.st.order):
            try:
                hit = False
                for v, s, n in out.raises:
                    if all(bool(numeval(c, env, memo)) == pol for c, pol in s.path):
                        hit = True
                if not hit:
                    u = unresolved_call(out)
                    if u:
                        return None, "not refused when %s, unless %s does" % (show_env(env), u)
                    return False, "is accepted when %s" % show_env(env)
            except ERRS:
                continue
        for env in far_samples((pre or []) + pre_of(out.st), [c for v, s, n in out.raises for c, _ in s.path], 80, out.st.order):
            try:
                if not any(all(bool(fareval(c, env)[0]) == pol for c, pol in s.path) for v, s, n in out.raises):
                    u = unresolved_call(out)
                    if u:
                        return None, "not refused when %s, unless %s does" % (show_env(env), u)
                    return False, "is accepted when %s" % show_env(env)
            except ERRS:
                continue
        return None, "refused only on some paths"

    # ------------------------------------------------------------ equality of values
    def freeze(self, v, st):
        return self.ip.freeze(v, st)

    def eq(self, a, b, st=None, pre=None, st2=None):
        """equality of two values (structural, numeric forms up to arithmetic)"""
        if st is not None:
            a = self.freeze(a, st)
            b = self.freeze(b, st2 or st)
        return self.veq(a, b, st, pre)

    def veq(self, a, b, st=None, pre=None):
        if not isinstance(a, Val) or not isinstance(b, Val):
            return True if a == b else False
        if a == b:
            return True
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return None
        if isinstance(a, BitsV) or isinstance(b, BitsV):
            if is_num(a) and is_num(b):
                return self.num_eq(a, b, st, pre)
        if isinstance(a, Const) and isinstance(b, Const):
            x, y = a.v, b.v
            if isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex)):
                return abs(x - y) <= 1e-9 * max(1.0, abs(x))
            return x == y
        if is_bool(a) and is_bool(b):
            return self.num_eq(as01(a), as01(b), st, pre)
        if is_num(a) and is_num(b) and "ndarray" not in (tyof(a), tyof(b)):
            return self.num_eq(a, b, st, pre)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return All([self.veq(x, y, st, pre) for x, y in zip(a.items, b.items)])
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op and a.op in ("list", "arr", "dict", "set", "frozenset", "OrderedDict", "defaultdict") or \
                isinstance(a, App) and isinstance(b, App) and a.op == b.op and a.op.startswith("obj:"):
            if len(a.args) != len(b.args):
                return False
            if a.op in ("set", "frozenset", "dict"):
                return True if set(a.args) == set(b.args) else None
            return All([self.veq(x, y, st, pre) for x, y in zip(a.args, b.args)])
        if isinstance(a, Ite) or isinstance(b, Ite):
            if not isinstance(a, Ite):
                a, b = b, a
            if st is not None:
                d = st.decide(a.c)
                if d is not None:
                    return self.veq(a.a if d else a.b, b, st, pre)
            v = All(self.veq(a.a, b, st, pre), self.veq(a.b, b, st, pre))
            if v is True:
                return True
            if has_opaque(a) or has_opaque(b):
                return None
            env = differ(a, b, (pre or []) + (pre_of(st) if st is not None else []), st.order if st is not None else None)
            if env is not None:
                self.last = show_env(env)
                return False
            return None
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb and ka != kb:
            return False
        return None

    @staticmethod
    def kind(v):
        if isinstance(v, Const):
            return "none" if v.v is None else ("str" if isinstance(v.v, str) else "num")
        if isinstance(v, Tup):
            return "tuple"
        if isinstance(v, App) and (v.op in ("list", "arr", "dict") or v.op.startswith("obj:")):
            return v.op
        if isinstance(v, ClassV):
            return "class " + v.info.qual
        if isinstance(v, (Sym, App, Poly)) and is_num(v) and tyof(v) != "ndarray":
            return "num"
        if isinstance(v, (Sym, App)) and v.ty == "str":
            return "str"
        return None

    def num_eq(self, a, b, st=None, pre=None):
        if a == b:
            return True
        if st is not None:
            try:
                a, b = st.simp(a), st.simp(b)
            except Undecided:
                pass
        try:
            d = sub(a, b)
        except Undecided:
            return None
        if isinstance(d, Const):
            return abs(d.v) < 1e-9
        t = terms(d)
        if all(abs(c) < 1e-9 for c in t.values()):
            return True
        c = cmp_num("eq", a, b)
        if st is not None:
            r = st.decide(c)
            if r is not None:
                return r
        if has_opaque(d):
            return None
        p = list(pre or [])
        order = None
        if st is not None:
            p += pre_of(st)
            order = st.order
        env = differ(a, b, p, order)
        if env is not None:
            self.last = show_env(env)
            return False
        return None

    def items(self, v, st):
        """elements of a value a user iterates over"""
        if isinstance(v, Const) and not isinstance(v.v, (str, bytes)):
            raise Refuted("%s where a sequence is expected" % show(v))
        return self.ip.iter_elems(v, self.ip.top(), st, None)

    def must(self, cond, st, want=True, pre=None):
        """boolean value equals `want`"""
        if not isinstance(cond, Val):
            return None
        if isinstance(cond, Const):
            return bool(cond.v) == want
        if not is_bool(cond):
            cond2 = None
            if isinstance(cond, Ite):
                return All(*[self._must_branch(cond, st, want, pre)])
            return None
        d = st.decide(cond)
        if d is not None:
            return d == want
        env = differ(cond, Const(want), (pre or []) + pre_of(st), st.order)
        if env is not None:
            self.last = show_env(env)
            return False
        return None

    def _must_branch(self, cond, st, want, pre):
        d = st.decide(cond.c)
        if d is not None:
            return self.must(cond.a if d else cond.b, st, want, pre)
        a, b = self.must(cond.a, st, want, pre), self.must(cond.b, st, want, pre)
        return True if a is True and b is True else None

    def hash_eq(self, a, b, st):
        """equal hashes: structural unification of the hashed keys"""
        if a == b:
            return True
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "hash":
            return self.hash_eq(a.args[0], b.args[0], st)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            return All([self.hash_eq(x, y, st) for x, y in zip(a.items, b.items)])
        if isinstance(a, App) and isinstance(b, App) and a.op == b.op == "frozenset":
            if len(a.args) != len(b.args):
                return False
            if len(a.args) == 2:
                return Any(All(self.hash_eq(a.args[0], b.args[0], st), self.hash_eq(a.args[1], b.args[1], st)),
                           All(self.hash_eq(a.args[0], b.args[1], st), self.hash_eq(a.args[1], b.args[0], st)))
            return All([self.hash_eq(x, y, st) for x, y in zip(a.args, b.args)])
        if isinstance(a, Ref) and isinstance(b, Ref):
            return None if a != b else True
        if is_num(a) and is_num(b):
            try:
                d = sub(a, b)
            except Undecided:
                return None
            if isinstance(d, Const):
                return abs(d.v) < 1e-12
            return st.decide(cmp_num("eq", a, b))
        if isinstance(a, Const) and isinstance(b, Const):
            return a == b
        if isinstance(a, App) and isinstance(b, App) and a.op != b.op and {a.op, b.op} <= {"hash", "frozenset"}:
            return False
        return None

    # ------------------------------------------------------------ end of run
    def finish(self, explanation, floor=1):
        dec = [o for o in self.obls if o.verdict is not None]
        ref = [o for o in self.obls if o.verdict is False]
        und = [o for o in self.obls if o.verdict is None]
        known = load_known()
        kf = {k for p, k in known["finding"] if p == self.pid}
        new = [o for o in ref if o.key not in kf]
        old = [o for o in ref if o.key in kf]
        wall = time.time() - self.t0
        by_rule = {}
        for o in self.obls:
            d = by_rule.setdefault(o.rule, {"obligations": 0, "established": 0, "refuted": 0, "undecided": 0})
            d["obligations"] += 1
            d[{True: "established", False: "refuted", None: "undecided"}[o.verdict]] += 1
        cov = {
            "explanation": explanation,
            "obligations": len(self.obls),
            "discharged": len([o for o in self.obls if o.verdict is True]),
            "refuted": len(ref),
            "undecided": len(und),
            "by_rule": by_rule,
            "rules": self.rules,
            "analysed": sorted(self.analysed)[:200],
            "samples": [{"rule": o.rule, "instance": o.inst, "where": o.where} for o in dec[:: max(1, len(dec) // 12)]][:14],
            "undecided_instances": [{"rule": o.rule, "instance": o.inst, "why": o.why[:200]} for o in und[:25]],
            "repo_modules": sorted(m for m in self.ip.project.modules),
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov, "wall_s": round(wall, 3),
              "assumptions": ASSUMPTIONS + self.notes,
              "violations": len(new)}
        cov["violation_details"] = [{"rule": o.rule, "instance": o.inst, "where": o.where, "why": o.why} for o in new]
        os.makedirs(os.path.join(EVID, "evidence"), exist_ok=True)
        with open(os.path.join(EVID, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for o in old:
            print("KNOWN-FINDING: property=%s %s :: %s" % (self.pid, o.key, o.why))
        print("%s: %d obligations, %d established, %d refuted (%d known), %d undecided, %.1f s" % (
            self.pid, len(self.obls), cov["discharged"], len(ref), len(old), len(und), wall))
        if new:
            rp = os.path.join(EVID, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for o in new:
                    f.write("%s\n  instance: %s\n  at: %s\n  because: %s\n" % (o.rule, o.inst, o.where, o.why))
            for o in new[:6]:
                print("  %s [%s] at %s: %s" % (o.rule, o.inst, o.where, o.why))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if len(dec) < floor:
            print("analysis broken: only %d of %d obligations decided (at least %d expected)" % (len(dec), len(self.obls), floor))
            for o in und[:5]:
                print("   undecided %s: %s" % (o.key, o.why))
            return 2
        return 0


ASSUMPTIONS = [
    "numbers are treated as exact reals/complexes/integers; floating-point rounding is outside the analysis",
    "numpy/scipy/math/itertools functions behave as modelled in hpa/lib*.py; unknown externals are uninterpreted",
    "attributes are only set through the code of the package (no monkey patching by callers)",
]


def load_known():
    out = {"finding": [], "fixed": []}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*?) :: ", l)
            if m:
                out["finding"].append((m.group(1), m.group(2)))
    return out
