"""Model of the math module: log/exp uninterpreted with order axioms."""
import math as _m
from fractions import Fraction
from math import *  # noqa: F401,F403  (concrete fallbacks)

import z3

from .engine import E, Gap
from .values import SymInt, SymReal, is_sym, mkbool, mkint, mkreal, num_term, to_real

_sx_module_name = 'math'
pi, e, inf, nan, tau = _m.pi, _m.e, _m.inf, _m.nan, _m.tau


def _rt(x):
    p = num_term(x)
    if p is None:
        raise TypeError('must be real number')
    return z3.simplify(to_real(p[0]))


def log(x, *base):
    if not is_sym(x):
        return _m.log(x, *base)
    if base:
        return log(x) / log(base[0])
    t = _rt(x)
    if E.fork(t <= 0):
        raise ValueError('math domain error')
    for _, u, lg, _ in E.logs:
        if u.eq(t):
            return SymReal(lg)
    # recognise 1 - u
    kind, draw = 'u', t
    lg = E.fresh(z3.RealSort(), 'log')
    cons = [z3.Implies(t < 1, z3.And(lg <= z3.RealVal('-1/1000000000000000'),
                                     lg >= z3.RealVal(-36))),
            z3.Implies(t == 1, lg == 0), z3.Implies(t > 1, lg > 0)]
    if t in E.draw_bounds:
        lo, hi = (_m.log(Fraction(x)) for x in E.draw_bounds[t])
        cons += [lg >= z3.RealVal(Fraction(lo - 1e-9)), lg <= z3.RealVal(Fraction(hi + 1e-9))]
    for _, u, l2, _ in E.logs:
        cons.append((u < t) == (l2 < lg))
        cons.append((u == t) == (l2 == lg))
    s = z3.simplify(1 - t)
    for _, _, out in E.rng_order:
        for o in out:
            if o.eq(s):
                kind, draw = '1-u', s
    E.add(z3.And(*cons))
    E.logs.append((kind, t, lg, draw))
    return SymReal(lg)


def exp(x):
    if not is_sym(x):
        return _m.exp(x)
    t = _rt(x)
    for a, r in E.exps:
        if a.eq(t):
            return SymReal(r)
    for a, r in E.exps:
        res, _ = E._check(a != t)
        if res == z3.unsat:
            E.exps.append((t, r))
            return SymReal(r)
    r = E.fresh(z3.RealSort(), 'exp')
    cons = [r > 0, (t == 0) == (r == 1), (t < 0) == (r < 1)]
    for a, r2 in E.exps:
        cons.append((a < t) == (r2 < r))
        cons.append((a == t) == (r2 == r))
    E.add(z3.And(*cons))
    E.exps.append((t, r))
    return SymReal(r)


def sqrt(x):
    if not is_sym(x):
        return _m.sqrt(x)
    t = _rt(x)
    if E.fork(t < 0):
        raise ValueError('math domain error')
    r = E.fresh(z3.RealSort(), 'sqrt')
    E.add(z3.And(r >= 0, r * r == t))
    return SymReal(r)


def factorial(n):
    if type(n) is SymInt:
        n = n.__index__()
    return _m.factorial(n)


def pow(a, b):
    if is_sym(a) or is_sym(b):
        return a ** b
    return _m.pow(a, b)


def floor(x):
    return x.__floor__() if is_sym(x) else _m.floor(x)


def ceil(x):
    return x.__ceil__() if is_sym(x) else _m.ceil(x)


def trunc(x):
    return x.__trunc__() if is_sym(x) else _m.trunc(x)


def fabs(x):
    return abs(x * 1.0) if is_sym(x) else _m.fabs(x)


def fsum(xs):
    xs = list(xs)
    return sum(xs, 0.0) if any(is_sym(x) for x in xs) else _m.fsum(xs)


def prod(xs, *, start=1):
    for x in xs:
        start = start * x
    return start


def isinf(x):
    return False if is_sym(x) else _m.isinf(x)


def isnan(x):
    return False if is_sym(x) else _m.isnan(x)


def isfinite(x):
    return True if is_sym(x) else _m.isfinite(x)


def isclose(a, b, **k):
    if is_sym(a) or is_sym(b):
        raise Gap('isclose')
    return _m.isclose(a, b, **k)
