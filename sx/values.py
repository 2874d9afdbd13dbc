"""Symbolic proxy values used while executing the real code."""
from collections.abc import Sequence
from fractions import Fraction
import numbers

import z3

from .engine import E, Gap

SYMHASH = 0x5EED


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base of all proxies."""
    __slots__ = ()

    def __repr__(self):
        return '<sym>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Gap('pickle of symbolic value')


def num_term(x):
    """(term, is_real) of a number, or None."""
    if type(x) is SymInt:
        return x.t, False
    if type(x) is SymReal:
        return x.t, True
    if type(x) is SymBool:
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), False
    if isinstance(x, bool):
        return z3.IntVal(int(x)), False
    if isinstance(x, int):
        return z3.IntVal(x), False
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        return z3.RealVal(Fraction(x)), True
    if isinstance(x, Fraction):
        return z3.RealVal(x), True
    return None


def both(a, b):
    """Terms of a and b coerced to one sort; (None, ..) if not numeric."""
    x, y = num_term(a), num_term(b)
    if x is None or y is None:
        return None, None, False
    (t, r), (u, s) = x, y
    if r != s:
        t = t if r else to_real(t)
        u = u if s else to_real(u)
    return t, u, r or s


def no_overflow(a, b):
    """Mixing a float with an int too large for one is an error."""
    if type(a) is SymReal and type(b) is int and abs(b) >= 2 ** 1024:
        raise OverflowError('int too large to convert to float')


def to_real(t):
    if z3.is_real(t):
        return t
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.fork(self.t)

    def __index__(self):
        return 1 if E.fork(self.t) else 0

    __int__ = __index__

    def __hash__(self):
        return SYMHASH

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.t == o.t)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.t))
        return SymInt(num_term(self)[0]).__eq__(o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return not_(self.__eq__(bool(o) if not is_sym(o) else o))

    __rxor__ = __xor__

    def __invert__(self):
        raise Gap('~bool')


for _op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'lt', 'le', 'gt', 'ge',
            'floordiv', 'mod', 'truediv', 'rtruediv', 'rfloordiv', 'rmod'):
    def _f(self, o, _op=_op):
        return getattr(SymInt(num_term(self)[0]), f'__{_op}__')(o)
    setattr(SymBool, f'__{_op}__', _f)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def bterm(x):
    """z3 Bool of a truth value."""
    if type(x) is SymBool:
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if is_sym(x):
        return x.truth()
    return z3.BoolVal(bool(x))


def and_(*xs):
    return mkbool(z3.And(*[bterm(x) for x in xs]))


def or_(*xs):
    return mkbool(z3.Or(*[bterm(x) for x in xs]))


def not_(x):
    if x is NotImplemented:
        return x
    return mkbool(z3.Not(bterm(x)))


def implies(a, b):
    return mkbool(z3.Implies(bterm(a), bterm(b)))


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkreal(t):
    return SymReal(z3.simplify(t))


def floordiv_t(a, b):
    """Python floor division of Int terms (b != 0 known)."""
    if z3.is_int_value(b):
        n = b.as_long()
        if n > 0:
            return a / b
        return (-a) / z3.IntVal(-n)
    # z3 div rounds so that the remainder is non-negative
    return z3.If(b > 0, a / b, (-a) / (-b))


def mod_t(a, b):
    return a - b * floordiv_t(a, b)


def _scaled(t):
    """(int term i, Fraction c) with t == i * c, or None."""
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0), Fraction(1)
    if k == z3.Z3_OP_DIV and z3.is_rational_value(t.arg(1)):
        r = _scaled(t.arg(0))
        d = t.arg(1).as_fraction()
        return r and d and (r[0], r[1] / d)
    if k == z3.Z3_OP_MUL and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_rational_value(b):
            a, b = b, a
        if z3.is_rational_value(a):
            r = _scaled(b)
            return r and (r[0], r[1] * a.as_fraction())
    return None


def _scaled_divmod(t, u):
    """Quotient and remainder of a rational multiple of an int by a rational
    constant, in integer arithmetic; None if they are not of that form."""
    if not z3.is_rational_value(u):
        return None
    r = _scaled(t)
    if not r:
        return None
    i, c = r
    v = u.as_fraction()
    x = Fraction(c) / Fraction(v)
    n, q = z3.simplify(i * x.numerator), x.denominator
    m = Fraction(v) / q
    return (mkreal(z3.ToReal(floordiv_t(n, z3.IntVal(q)))),
            mkreal(z3.ToReal(mod_t(n, z3.IntVal(q))) * z3.RealVal(m)))


class _Num(Sym):
    __slots__ = ()

    def __hash__(self):
        return SYMHASH

    def __bool__(self):
        return E.fork(self.truth())

    def truth(self):
        return self.t != 0

    def _cmp(self, o, op):
        if isinstance(o, float) and (o == float('inf') or o == float('-inf')):
            pos = o > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos,
                    'eq': False, 'ne': True}[op]
        t, u, real = both(self, o)
        if t is None:
            if op == 'eq' or op == 'ne':
                return NotImplemented
            return NotImplemented
        if real and op not in ('eq', 'ne'):
            E.real_cmp.append((t, u))
        return mkbool({'lt': lambda: t < u, 'le': lambda: t <= u,
                       'gt': lambda: t > u, 'ge': lambda: t >= u,
                       'eq': lambda: t == u, 'ne': lambda: t != u}[op]())

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def _bin(self, o, f):
        no_overflow(self, o)
        t, u, real = both(self, o)
        if t is None:
            return NotImplemented
        r = f(t, u)
        return mkreal(r) if real else mkint(r)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)) and not is_sym(o):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)) and not is_sym(o):
            return o * self.__index__()
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return self._bin(0, lambda a, b: -a)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._bin(0, lambda a, b: z3.If(a >= 0, a, -a))

    def _div(self, a, b):
        no_overflow(a, b)
        no_overflow(b, a)
        ta, tb = num_term(a), num_term(b)
        if ta is None or tb is None:
            return NotImplemented
        ta, tb = ta[0], tb[0]
        if E.fork(tb == 0):
            raise ZeroDivisionError('division by zero')
        return mkreal(to_real(ta) / to_real(tb))

    def __truediv__(self, o):
        return self._div(self, o)

    def __rtruediv__(self, o):
        return self._div(o, self)

    def _divmod(self, a, b, what):
        t, u, real = both(a, b)
        if t is None:
            return NotImplemented
        if E.fork(u == 0):
            raise ZeroDivisionError('integer modulo by zero')
        if real:
            r = _scaled_divmod(t, u)
            if r is not None:
                q, m = r
                return q if what == 'q' else m if what == 'm' else (q, m)
            q = z3.ToInt(t / u)
            if what == 'q':
                return mkreal(z3.ToReal(q))
            m = mkreal(t - z3.ToReal(q) * u)
            return m if what == 'm' else (mkreal(z3.ToReal(q)), m)
        if what == 'q':
            return mkint(floordiv_t(t, u))
        if what == 'm':
            return mkint(mod_t(t, u))
        return mkint(floordiv_t(t, u)), mkint(mod_t(t, u))

    def __floordiv__(self, o):
        return self._divmod(self, o, 'q')

    def __rfloordiv__(self, o):
        return self._divmod(o, self, 'q')

    def __mod__(self, o):
        return self._divmod(self, o, 'm')

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % ('<sym>',)
        return self._divmod(o, self, 'm')

    def __divmod__(self, o):
        return self._divmod(self, o, 'qm')

    def __rdivmod__(self, o):
        return self._divmod(o, self, 'qm')

    def __pow__(self, o, mod=None):
        if mod is not None:
            raise Gap('pow mod')
        n = o.__index__() if type(o) is SymInt else o
        if isinstance(n, float) and n.is_integer():
            n = int(n)
        if not isinstance(n, int):
            raise Gap('pow')
        if n < 0:
            return 1 / (self ** -n)
        r = 1
        for _ in range(n):
            r = self * r
        return r

    def __rpow__(self, o):
        n = self.__index__()
        return o ** n


class SymInt(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __index__(self):
        return E.pick(self.t)

    def __int__(self):
        return E.pick(self.t)

    def __float__(self):
        return float(E.pick(self.t))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __and__(self, o):
        return self.__index__() & o.__index__()

    def __rand__(self, o):
        return self.__index__() & o.__index__()

    def __or__(self, o):
        return self.__index__() | o.__index__()

    def __rshift__(self, o):
        return self // (1 << o.__index__())

    def __lshift__(self, o):
        return self * (1 << o.__index__())

    def __xor__(self, o):
        return self.__index__() ^ o.__index__()

    def __invert__(self):
        return -self - 1

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self


class SymReal(_Num):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        return SymReal.trunc(self).__index__()

    def trunc(self):
        t = self.t
        return mkint(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))

    __trunc__ = trunc

    def __floor__(self):
        return mkint(z3.ToInt(self.t))

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.t))

    def __round__(self, n=None):
        if type(n) is SymInt:
            n = n.__index__()
        scale = Fraction(10) ** (n or 0)
        t = self.t if scale == 1 else self.t * z3.RealVal(str(scale))
        f = z3.ToInt(t)
        d = t - z3.ToReal(f)
        half = z3.RealVal('1/2')
        r = z3.If(d < half, f, z3.If(d > half, f + 1,
                  z3.If(f % 2 == 0, f, f + 1)))
        if n is None:
            return mkint(r)
        return mkreal(z3.ToReal(r) / z3.RealVal(str(scale)))

    def __float__(self):
        t = z3.simplify(self.t)
        if z3.is_rational_value(t):
            return float(t.as_fraction())
        raise Gap('float() of symbolic real')

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))


numbers.Integral.register(SymInt)
numbers.Real.register(SymReal)


# What a value's code stands for (see decode_val in sx/real.py): above 0 a
# non-empty string, 0 the empty string, -1 the number 0, -2 None.
CATS = ((str, lambda t: t >= 0), (int, lambda t: t == -1),
        (type(None), lambda t: t == -2))


class SymVal(Sym):
    """An opaque user value: symbolic equality and symbolic truthiness.

    Values with code <= 0 are falsy; equal codes are equal values.
    """
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return object

    def __hash__(self):
        return SYMHASH

    def truth(self):
        return self.t > 0

    def __bool__(self):
        return E.fork(self.truth())

    def __eq__(self, o):
        if type(o) is SymVal:
            return mkbool(self.t == o.t)
        if self is o:
            return True
        if o is None:
            return mkbool(self.t == -2)
        if is_sym(o):
            return False
        if isinstance(o, (int, float)):
            return mkbool(self.t == -1) if o == 0 else False
        if isinstance(o, str):
            if not o:
                return mkbool(self.t == 0)
            if o[0] == 'v' and o[1:].isdigit():
                return mkbool(self.t == int(o[1:]))
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def cat(self, f):
        """Decides a question about its type: f(type) for the one it has."""
        ans = [(bool(f(c)), cond(self.t)) for c, cond in CATS]
        yes = [c for a, c in ans if a]
        if len(yes) in (0, len(CATS)):
            return bool(yes)
        return E.fork(z3.Or(*yes))

    def kind(self):
        for c, cond in CATS[:-1]:
            if E.fork(cond(self.t)):
                return c
        return CATS[-1][0]

    def _str_only(self):
        if self.cat(lambda c: c is str):
            raise Gap('string operation on an opaque value')
        raise TypeError('object does not support this operation')

    def __iter__(self):
        self._str_only()

    def __len__(self):
        self._str_only()

    def __getitem__(self, i):
        self._str_only()

    def __contains__(self, x):
        self._str_only()

    def __getattr__(self, name):
        if name.startswith('_sx') or name in ('sx_len', '__sx__'):
            raise AttributeError(name)
        if not self.cat(lambda c: hasattr(c, name)):
            raise AttributeError(name)
        if name in ('strip', 'lstrip', 'rstrip'):
            # an opaque text has no blanks
            return lambda: self

        def stub(*a, **k):
            raise Gap(f'{name} of an opaque value')
        return stub


def ctx_uf(name, *sorts):
    f = E.ufs.get(name)
    if f is None:
        f = E.ufs[name] = z3.Function(name, *sorts)
    return f


class SymStr(Sym):
    """A string: a tuple of parts, each concrete str or z3 String term.

    chr parts are ('chr', Int term).
    """
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                    continue
            out.append(p)
        self.parts = tuple(out)

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return SYMHASH

    def term(self):
        ts = []
        for p in self.parts:
            if isinstance(p, str):
                ts.append(z3.StringVal(p))
            elif isinstance(p, tuple):
                ts.append(z3.StrFromCode(p[1]))
            else:
                ts.append(p)
        if not ts:
            return z3.StringVal('')
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    def truth(self):
        return z3.Length(self.term()) > 0

    def __bool__(self):
        return E.fork(self.truth())

    def __eq__(self, o):
        if isinstance(o, str) and not is_sym(o):
            o = SymStr((o,))
        if type(o) is not SymStr:
            return False
        return mkbool(str_eq_t(self, o))

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __add__(self, o):
        if type(o) is SymStr:
            return mkstr(self.parts + o.parts)
        if isinstance(o, str):
            return mkstr(self.parts + (o,))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mkstr((o,) + self.parts)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.parts * n.__index__())

    __rmul__ = __mul__

    def sx_len(self):
        n = z3.IntVal(0)
        for p in self.parts:
            if isinstance(p, str):
                n = n + len(p)
            elif isinstance(p, tuple):
                n = n + 1
            else:
                n = n + z3.Length(p)
        return mkint(n)

    def __len__(self):
        r = self.sx_len()
        return r.__index__()

    def join(self, it):
        return str_join(self, it)

    def chars(self):
        """Its characters; the lengths of its parts are decided here."""
        out = []
        for p in self.parts:
            if isinstance(p, str):
                out.extend(p)
            elif isinstance(p, tuple):
                out.append(SymStr((p,)))
            else:
                n = E.pick(z3.Length(p))
                if n == 1:
                    out.append(SymStr((p,)))
                else:
                    out.extend(SymStr((z3.SubString(p, i, 1),))
                               for i in range(n))
        return out

    def __iter__(self):
        return iter(self.chars())

    def __getitem__(self, i):
        if type(i) is slice:
            a, b, c = (x.__index__() if is_sym(x) else x
                       for x in (i.start, i.stop, i.step))
            return str_join('', self.chars()[a:b:c])
        return self.chars()[i.__index__() if is_sym(i) else i]

    def startswith(self, o):
        return self._fix(o, z3.PrefixOf)

    def endswith(self, o):
        return self._fix(o, z3.SuffixOf)

    def _fix(self, o, f):
        if type(o) is tuple:
            return or_(*[self._fix(x, f) for x in o])
        o = o if type(o) is SymStr else SymStr((o,))
        return mkbool(f(o.term(), self.term()))

    def __contains__(self, o):
        o = o if type(o) is SymStr else SymStr((o,))
        return E.fork(z3.Contains(self.term(), o.term()))

    def _strip(self, chars, left, right):
        if is_sym(chars):
            raise Gap('symbolic characters to strip')
        if chars is None:
            chars = SPACES
        cs = self.chars()
        a, b = 0, len(cs)

        def hit(c):
            return c in chars if type(c) is not SymStr else bool(or_(False, *[c == x for x in chars]))
        while left and a < b and hit(cs[a]):
            a += 1
        while right and a < b and hit(cs[b - 1]):
            b -= 1
        return self if (a, b) == (0, len(cs)) else str_join('', cs[a:b])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _places(self, sub, limit=-1):
        """Non-overlapping places of sub, from the left; and the characters."""
        cs = self.chars()
        sub = sub.chars() if type(sub) is SymStr else list(sub)
        if not sub:
            raise Gap('searching an empty text')
        out, i = [], 0
        while i + len(sub) <= len(cs) and len(out) != limit:
            if and_(*[c == x for c, x in zip(cs[i:], sub)]):
                out.append(i)
                i += len(sub)
            else:
                i += 1
        return out, cs, len(sub)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Gap('splitting at blanks')
        ps, cs, n = self._places(sep, maxsplit)
        ends = [0] + [p + n for p in ps]
        return [str_join('', cs[a:b]) for a, b in zip(ends, ps + [len(cs)])]

    def partition(self, sep):
        xs = self.split(sep, 1)
        return (xs[0], sep, xs[1]) if len(xs) == 2 else (self, '', '')

    def replace(self, old, new, count=-1):
        return str_join(new, self.split(old, count))

    def find(self, sub):
        ps = self._places(sub, 1)[0]
        return ps[0] if ps else -1

    def index(self, sub):
        i = self.find(sub)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        return len(self._places(sub)[0])

    def removeprefix(self, o):
        return str_join('', self.chars()[len(o):]) if self.startswith(o) else self

    def removesuffix(self, o):
        if o and self.endswith(o):
            return str_join('', self.chars()[:-len(o)])
        return self

    def isspace(self):
        cs = self.chars()
        return bool(cs) and all(c in SPACES if type(c) is not SymStr else
                                or_(*[c == x for x in SPACES]) for c in cs)

    def _gap(self, *a, **k):
        raise Gap('string method')

    lower = upper = encode = format = _gap
    isdigit = isalpha = title = capitalize = casefold = _gap
    rsplit = splitlines = zfill = ljust = rjust = center = rfind = rindex = rpartition = _gap


SPACES = ''.join(chr(i) for i in range(0x3001) if chr(i).isspace())


def mkstr(parts):
    s = SymStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


def _part_same(p, q):
    if isinstance(p, str) or isinstance(q, str):
        return isinstance(p, str) and isinstance(q, str) and p == q
    if isinstance(p, tuple) or isinstance(q, tuple):
        return (isinstance(p, tuple) and isinstance(q, tuple)
                and p[1].eq(q[1]))
    return p.eq(q)


def str_eq_t(a, b):
    if len(a.parts) == len(b.parts) and all(
            _part_same(p, q) for p, q in zip(a.parts, b.parts)):
        return z3.BoolVal(True)
    if (len(a.parts) == len(b.parts) and all(
            isinstance(p, tuple) and isinstance(q, tuple)
            for p, q in zip(a.parts, b.parts))):
        return z3.And(*[p[1] == q[1] for p, q in zip(a.parts, b.parts)])
    return a.term() == b.term()


def str_join(sep, it):
    parts = []
    sp = sep.parts if type(sep) is SymStr else (sep,)
    first = True
    for i, x in enumerate(it):
        if not first:
            parts.extend(sp)
        first = False
        if type(x) is SymStr:
            parts.extend(x.parts)
        elif isinstance(x, str) and not is_sym(x):
            parts.append(x)
        elif is_sym(x) and isinstance(x, str):
            raise Gap('joining texts of symbolic dates')
        else:
            raise TypeError(f'sequence item {i}: expected str instance, '
                            f'{type(x).__name__} found')
    return mkstr(parts)


def ceil_len_t(start, stop, step):
    """Length term of range(start, stop, step), step != 0."""
    up = z3.If(start < stop, (stop - start - 1) / step + 1, 0)
    dn = z3.If(start > stop, (start - stop - 1) / (-step) + 1, 0)
    s = z3.simplify(step)
    if z3.is_int_value(s):
        return up if s.as_long() > 0 else dn
    return z3.If(step > 0, up, dn)


def it(x):
    """Int term of an index-like value (TypeError otherwise)."""
    if type(x) is SymInt:
        return x.t
    if type(x) is SymBool:
        return num_term(x)[0]
    if type(x) is SymReal:
        raise TypeError("'float' object cannot be interpreted as an integer")
    return z3.IntVal(x.__index__())


class SymRange(Sym, Sequence):
    """range with symbolic start/stop/step."""
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    @property
    def __class__(self):
        return range

    start = property(lambda s: mkint(s.a))
    stop = property(lambda s: mkint(s.b))
    step = property(lambda s: mkint(s.c))

    def len_t(self):
        return z3.simplify(ceil_len_t(self.a, self.b, self.c))

    def sx_len(self):
        return mkint(self.len_t())

    def __len__(self):
        r = self.sx_len()
        return r if isinstance(r, int) and not is_sym(r) else r.__index__()

    def __bool__(self):
        return E.fork(self.len_t() > 0)

    def truth(self):
        return self.len_t() > 0

    def __getitem__(self, i):
        n = self.len_t()
        if isinstance(i, slice):
            s, e, st = slice_indices(i, n)
            a, c = self.a, self.c
            return mkrange(a + s * c, a + e * c, c * st)
        t = it(i)
        if E.fork(z3.And(t >= 0, t < n)):
            return mkint(self.a + t * self.c)
        if E.fork(z3.And(t < 0, t + n >= 0)):
            return mkint(self.a + (t + n) * self.c)
        raise IndexError('range object index out of range')

    def contains_t(self, x):
        x, a, b, c = x, self.a, self.b, self.c
        inside = z3.Or(z3.And(c > 0, a <= x, x < b),
                       z3.And(c < 0, b < x, x <= a))
        cs = z3.simplify(c)
        if z3.is_int_value(cs) and abs(cs.as_long()) == 1:
            return inside
        return z3.And(inside, (x - a) % c == 0)

    def __contains__(self, x):
        p = num_term(x)
        if p is None:
            return False
        t, real = p
        if real:
            return E.fork(z3.And(z3.IsInt(t), self.contains_t(z3.ToInt(t))))
        return E.fork(self.contains_t(t))

    def index(self, x):
        if x in self:
            return (x - self.start) // self.step
        raise ValueError('not in range')

    def count(self, x):
        return 1 if x in self else 0

    def __iter__(self):
        a, b, c = self.a, self.b, self.c
        pos = E.fork(c > 0)
        x = a
        while E.fork((x < b) if pos else (x > b)):
            yield mkint(x)
            x = z3.simplify(x + c)

    def __reversed__(self):
        return iter(self[::-1])

    def __eq__(self, o):
        if not isinstance(o, range):
            return NotImplemented
        m = self.len_t()
        n = o.len_t() if type(o) is SymRange else z3.IntVal(len(o))
        oa, oc = (o.a, o.c) if type(o) is SymRange else (o.start, o.step)
        return mkbool(z3.And(m == n, z3.Or(m == 0, z3.And(
            self.a == oa, z3.Or(m == 1, self.c == oc)))))

    def __hash__(self):
        return SYMHASH


def slice_indices(slc, n):
    """(start, stop, step) Int terms; as slice.indices with symbolic parts."""
    step = z3.IntVal(1) if slc.step is None else it(slc.step)
    st = z3.simplify(step)
    if z3.is_int_value(st):
        if st.as_long() == 0:
            raise ValueError('slice step cannot be zero')
        pos = st.as_long() > 0
    else:
        if E.fork(step == 0):
            raise ValueError('slice step cannot be zero')
        pos = E.fork(step > 0)
    if pos:
        lower, upper = z3.IntVal(0), n
    else:
        lower, upper = z3.IntVal(-1), n - 1

    def clampv(x, dflt):
        if x is None:
            return dflt
        t = it(x)
        return z3.If(t < 0, z3.If(t + n < lower, lower, t + n),
                     z3.If(t > upper, upper, t))
    start = clampv(slc.start, upper if not pos else lower)
    stop = clampv(slc.stop, lower if not pos else upper)
    return z3.simplify(start), z3.simplify(stop), step


def mkrange(a, b, c):
    a, b, c = z3.simplify(a), z3.simplify(b), z3.simplify(c)
    if all(z3.is_int_value(x) for x in (a, b, c)):
        return range(a.as_long(), b.as_long(), c.as_long())
    return SymRange(a, b, c)


def sym_range(*args):
    if not any(is_sym(x) for x in args):
        return range(*args)
    if len(args) == 1:
        a, b, c = z3.IntVal(0), it(args[0]), z3.IntVal(1)
    elif len(args) == 2:
        a, b, c = it(args[0]), it(args[1]), z3.IntVal(1)
    else:
        a, b, c = map(it, args)
        if E.fork(c == 0):
            raise ValueError('range() arg 3 must not be zero')
    return mkrange(a, b, c)


class SxSet(Sym):
    """A set whose members may be symbolic: explicit pairwise equality."""
    __slots__ = ('xs',)

    def __init__(self, xs=()):
        self.xs = []
        for x in xs:
            self.add(x)

    @property
    def __class__(self):
        return set

    def add(self, x):
        hash(x)
        if x not in self:
            self.xs.append(x)

    def __contains__(self, x):
        return any(y is x or y == x for y in self.xs)

    def __len__(self):
        return len(self.xs)

    def sx_len(self):
        return len(self.xs)

    def __bool__(self):
        return bool(self.xs)

    def truth(self):
        return z3.BoolVal(bool(self.xs))

    def __iter__(self):
        return iter(list(self.xs))

    def update(self, *its):
        for i in its:
            for x in i:
                self.add(x)

    def discard(self, x):
        self.xs = [y for y in self.xs if not (y is x or y == x)]

    remove = discard

    def union(self, *its):
        r = SxSet(self.xs)
        r.update(*its)
        return r

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        o = list(o)
        return SxSet([x for x in self.xs if any(x == y for y in o)])

    intersection = __and__

    def __sub__(self, o):
        o = list(o)
        return SxSet([x for x in self.xs if not any(x == y for y in o)])

    difference = __sub__

    def issubset(self, o):
        o = list(o)
        return all(any(x == y for y in o) for x in self.xs)

    __le__ = issubset

    def issuperset(self, o):
        return all(x in self for x in o)

    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        o = list(o)
        return len(o) == len(self.xs) and self.issubset(o)

    __hash__ = None

    def copy(self):
        return SxSet(self.xs)


def deep_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (tuple, list)) and not is_sym(x):
        return any(deep_sym(y) for y in x)
    return getattr(type(x), '_sx_model', False)
