"""Symbolic-mode harness API."""
import math
from fractions import Fraction

import z3

from . import mdatetime, mmath, mrandom, loader, values as V
from .engine import E, Gap, PathAbort, real_value, z3str
from .values import (SymBool, SymInt, SymReal, SymStr, SymVal, and_, bterm,
                     implies, is_sym, mkbool, mkint, not_, num_term, or_)


def deep_eq(a, b):
    """Equality without forking; lists, tuples and dicts element-wise."""
    if isinstance(a, dict) and isinstance(b, dict) and not is_sym(a):
        if list(a) != list(b):
            return False
        return and_(*[deep_eq(a[k], b[k]) for k in a]) if a else True
    for t in (list, tuple):
        if isinstance(a, t) and isinstance(b, t) and not is_sym(a):
            if len(a) != len(b):
                return False
            return and_(*[deep_eq(x, y) for x, y in zip(a, b)]) if a else True
    if a is b:
        return True
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    r = (a == b)
    return r if is_sym(r) or isinstance(r, bool) else bool(r)


class SymApi:
    symbolic = True

    def __init__(self, fx, params, mods):
        self.fx = fx
        self.P = params
        self.mods = mods
        self.random = mrandom
        self.dt = mdatetime
        self.math = mmath

    # -- inputs ------------------------------------------------------------------
    def _in(self, name, kind, sort):
        name = E.name(name)
        t = z3.Const(name, sort)
        E.inputs.append((name, kind, t))
        return t

    def int(self, name, lo=None, hi=None):
        t = self._in(name, 'int', z3.IntSort())
        cs = []
        if lo is not None:
            cs.append(t >= lo)
        if hi is not None:
            cs.append(t <= hi)
        if cs:
            E.add(z3.And(*cs))
        return SymInt(t)

    def bool(self, name):
        return SymBool(self._in(name, 'bool', z3.BoolSort()))

    def flag(self, name):
        return E.fork(self._in(name, 'bool', z3.BoolSort()))

    def real(self, name, lo=None, hi=None, lo_strict=False):
        t = self._in(name, 'real', z3.RealSort())
        if lo is not None:
            E.add(t > lo if lo_strict else t >= lo)
        if hi is not None:
            E.add(t <= hi)
        return SymReal(t)

    def val(self, name, falsy=True, none=True):
        t = self._in(name, 'val', z3.IntSort())
        lo = 1 if not falsy else -2 if none else -1
        E.add(z3.And(t >= lo, t <= 10 ** 6))
        return SymVal(t)

    def vals(self, name, n, falsy=True, none=True):
        return [self.val(name, falsy, none) for _ in range(n)]

    def char(self, name):
        t = self._in(name, 'str', z3.StringSort())
        E.add(z3.Length(t) == 1)
        return SymStr((t,))

    def string(self, name, maxlen=3):
        t = self._in(name, 'str', z3.StringSort())
        E.add(z3.Length(t) <= maxlen)
        return SymStr((t,))

    def choose(self, name, options):
        t = self._in(name, 'choose', z3.IntSort())
        n = len(options)
        E.add(z3.And(t >= 0, t < n))
        for i in range(n - 1):
            if E.fork(t == i):
                return options[i]
        E.fork(t == n - 1)
        return options[n - 1]

    def seed(self, name):
        return self.int(name)

    def pick(self, x):
        return x.__index__()

    def small(self, name, lo, hi):
        """A forked concrete int in [lo, hi]."""
        t = self._in(name, 'int', z3.IntSort())
        E.add(z3.And(t >= lo, t <= hi))
        for v in range(lo, hi):
            if E.fork(t == v):
                return v
        E.fork(t == hi)
        return hi

    # -- date/time inputs ---------------------------------------------------------
    def date(self, name, lo=1, hi=mdatetime.MAXORD):
        return mdatetime.date._mkord(self.int(name, lo, hi))

    def time(self, name, tz=None):
        return mdatetime.time._mk(self.int(name, 0, mdatetime.DAY - 1), tz)

    def datetime(self, name, tz=None, lo=1, hi=mdatetime.MAXORD):
        return mdatetime.datetime._mk(
            self.int(name, lo * mdatetime.DAY, (hi + 1) * mdatetime.DAY - 1), tz)

    def td(self, us):
        return mdatetime.timedelta._mk(us)

    def tz(self, minutes):
        return mdatetime.timezone(mdatetime.timedelta(minutes=minutes))

    def iso(self, v):
        return mdatetime.ISOStr(v)

    def subclassed(self, v):
        """An equal value whose type is a subclass of v's."""
        r = object.__new__(type('Sub' + type(v).__name__, (type(v),), {}))
        r.__dict__.update(v.__dict__)
        return r

    # value measures used by oracles
    def ordinal(self, d):
        return d.ord

    def time_us(self, t):
        return t.us

    def dt_us(self, d):
        return d.dus

    def td_us(self, d):
        return d.us

    # -- logic -------------------------------------------------------------------
    def assume(self, c):
        if is_sym(c):
            E.assume(bterm(c))
        elif not c:
            raise PathAbort('assume')

    def check(self, c, label):
        E.check(bterm(c) if is_sym(c) else bool(c), label)

    def fail(self, label):
        E.check(False, label)

    def cover(self, label):
        """Reachability witness: this point must be reached on some path."""
        E.covered = getattr(E, 'covered', set())
        E.covered.add(label)

    eq = staticmethod(deep_eq)
    and_ = staticmethod(and_)
    or_ = staticmethod(or_)
    not_ = staticmethod(not_)
    implies = staticmethod(implies)

    def ite(self, c, a, b):
        if not is_sym(c):
            return a if c else b
        t, u, real = V.both(a, b)
        r = z3.If(c.t, t, u)
        return V.mkreal(r) if real else mkint(r)

    def same(self, a, b):
        """Both are reals: exact equality (approximate if both are concrete)."""
        if type(a) in (int, float) and type(b) in (int, float):
            return math.isclose(a, b, rel_tol=1e-9)
        return deep_eq(a, b)

    def truth(self, x):
        return mkbool(bterm(x))

    def distinct(self, xs):
        return and_(*[not_(deep_eq(xs[i], xs[j])) for i in range(len(xs))
                      for j in range(i)]) if len(xs) > 1 else True

    def none(self, x):
        """x is None, decided."""
        return loader.sx_is(x, None)

    def len(self, x):
        return loader.sx_len(x)

    def hash(self, x):
        return loader.sx_hash(x)

    def str(self, x):
        return loader.sx_str(x)

    def chr(self, x):
        return loader.sx_chr(x)

    def range(self, *a):
        return V.sym_range(*a)

    def getitem(self, x, i):
        return loader.sx_getitem(x, i)

    def contains(self, s, sub):
        if type(s) is not SymStr:
            return sub in s
        return mkbool(z3.Contains(s.term(), z3.StringVal(sub)))

    def join(self, sep, xs):
        return V.str_join(sep, xs)

    def obs(self, x):
        E.obs.append(x)
        return x

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc as e:
            return e
        return None

    def draws(self):
        """The uniform draws made so far, as reals."""
        return [SymReal(o) for _, _, out in E.rng_order for o in out
                if z3.is_real(o)]

    def ndraws(self):
        return len(E.rng_order)

    def gap(self, why):
        """The code works in a way this harness cannot judge."""
        raise Gap(why)

    def limit_draws(self, order, parts):
        """The next len(order) uniform draws are within the given ones of
        `parts` equal parts of [0, 1), in the middle of each."""
        E.draw_limits = [(f'{10 * j + 4}/{10 * parts}', f'{10 * j + 6}/{10 * parts}') for j in order]

    def drawlog(self):
        """Draws so far: ('u', real) or (kind, n, int or ints)."""
        out = []
        for _, hist, terms in E.rng_order:
            req = hist[-1]
            if req == 'random':
                out.append(('u', SymReal(terms[0])))
            else:
                vals = [mkint(t) for t in terms]
                out.append((req[0], mkint(req[1]),
                            vals[0] if req[0] == 'below' else vals))
        return out

    def bound(self, n):
        E.bound = n


def enc(x, ev):
    """JSON image of an observed value under a model (None = unknown)."""
    if isinstance(x, (list, tuple)) and not is_sym(x):
        return [enc(y, ev) for y in x]
    if isinstance(x, dict):
        return {str(k): enc(v, ev) for k, v in x.items()}
    t = type(x)
    if t is SymInt:
        return ev(x.t).as_long()
    if t is SymBool:
        return z3.is_true(ev(x.t))
    if t is SymVal:
        c = ev(x.t).as_long()
        return f'v{c}' if c > 0 else ('', 0, None)[-c]
    if t is SymStr:
        out = ''
        for p in x.parts:
            if isinstance(p, str):
                out += p
            elif isinstance(p, tuple):
                out += chr(ev(p[1]).as_long())
            elif z3.is_const(p):
                out += z3str(ev(p))
            else:
                return '?'
        return out
    if isinstance(x, (bool, int, str)) and not is_sym(x) or x is None:
        return x
    if t in (mdatetime.date,):
        return ['date', enc(x.ord, ev)]
    if t is mdatetime.datetime:
        return ['datetime', enc(x.dus, ev)]
    if t is mdatetime.time:
        return ['time', enc(x.us, ev)]
    if t is mdatetime.timedelta:
        return ['timedelta', enc(x.us, ev)]
    return '?'
