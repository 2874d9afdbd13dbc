"""Model of the datetime module over (possibly symbolic) integers.

date      = proleptic ordinal            (1 .. 3652059)
datetime  = microseconds, ordinal * DAY + time of day; fixed-offset tz or None
time      = microsecond of the day; fixed-offset tz or None
timedelta = microseconds
Only the stdlib operations are modelled; calendar fields of symbolic dates are
uninterpreted.  selftest() in tools/model_check.py compares with the stdlib.
"""
import datetime as _rdt

import z3

from .engine import E, Gap
from .values import (SymInt, SymReal, SymVal, and_, ctx_uf, is_sym, mkbool, mkint,
                     mkreal, not_, num_term, or_, to_real, Sym)

_sx_module_name = 'datetime'
SEC = 10 ** 6
DAY = 86400 * SEC
MAXORD = _rdt.date.max.toordinal()
MINYEAR, MAXYEAR = 1, 9999
MAXDELTA = 999999999


def _eq(a, b):
    r = (a == b)
    return r


def _num(x):
    return num_term(x) is not None


class _DT:
    _sx_model = True

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return 0x5EED

    def __repr__(self):
        r = self._real()
        return '<sym %s>' % type(self).__name__ if r is None else repr(r)

    def __str__(self):
        r = self._real()
        return '<sym %s>' % type(self).__name__ if r is None else str(r)

    def __format__(self, spec):
        return str(self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)


class timedelta(_DT):
    __slots__ = ('us',)

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0,
                 minutes=0, hours=0, weeks=0):
        parts = ((days, DAY), (seconds, SEC), (microseconds, 1),
                 (milliseconds, 1000), (minutes, 60 * SEC),
                 (hours, 3600 * SEC), (weeks, 7 * DAY))
        if not any(is_sym(v) for v, _ in parts):
            r = _rdt.timedelta(days, seconds, microseconds, milliseconds,
                               minutes, hours, weeks)
            self.us = (r.days * DAY + r.seconds * SEC + r.microseconds)
            return
        tot = 0
        for v, m in parts:
            if not _num(v):
                raise TypeError('unsupported type for timedelta component: '
                                f'{type(v).__name__}')
            if isinstance(v, float) and not is_sym(v):
                if v != v:
                    raise ValueError('cannot convert float NaN to integer')
                if v in (float('inf'), float('-inf')):
                    raise OverflowError('cannot convert float infinity')
                # exact product of the double and the unit
                from fractions import Fraction
                v = Fraction(v)
                tot = tot + SymReal(z3.RealVal(v * m)) if is_sym(tot) else tot + v * m
                continue
            if is_sym(v) and not is_sym(tot) and not isinstance(tot, int):
                tot = SymReal(z3.RealVal(tot))
            tot = tot + v * m
        if type(tot) is SymReal or not (isinstance(tot, int)):
            tot = round(tot)
        self._set(tot)

    def _set(self, us):
        lim = MAXDELTA + 1
        if us < -MAXDELTA * DAY or us >= lim * DAY:
            raise OverflowError('days=%d; must have magnitude <= 999999999')
        self.us = us

    @classmethod
    def _mk(cls, us):
        o = timedelta.__new__(timedelta)
        o._set(us)
        return o

    def _real(self):
        return None if is_sym(self.us) else _rdt.timedelta(microseconds=self.us)

    days = property(lambda s: s.us // DAY)
    seconds = property(lambda s: s.us % DAY // SEC)
    microseconds = property(lambda s: s.us % SEC)

    def total_seconds(self):
        if is_sym(self.us):
            return mkreal(to_real(self.us.t) / 1000000)
        return self.us / 10 ** 6

    def __add__(self, o):
        return self._mk(self.us + o.us) if isinstance(o, timedelta) else NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self._mk(self.us - o.us) if isinstance(o, timedelta) else NotImplemented

    def __rsub__(self, o):
        return self._mk(o.us - self.us) if isinstance(o, timedelta) else NotImplemented

    def __mul__(self, o):
        if not _num(o):
            return NotImplemented
        if isinstance(o, float):
            if not is_sym(o) and not is_sym(self.us):
                return self._mk((_rdt.timedelta(microseconds=self.us) * o)
                                // _rdt.timedelta(microseconds=1))
            return self._mk(round(self.us * o))
        return self._mk(self.us * o)

    __rmul__ = __mul__

    def __neg__(self):
        return self._mk(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._mk(abs(self.us))

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return self.us / o.us
        if _num(o):
            if not is_sym(o) and not is_sym(self.us):
                return self._mk((_rdt.timedelta(microseconds=self.us) / o)
                                // _rdt.timedelta(microseconds=1))
            return self._mk(round(self.us / o))
        return NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            return self.us // o.us
        if isinstance(o, int):
            return self._mk(self.us // o)
        return NotImplemented

    def __mod__(self, o):
        return self._mk(self.us % o.us) if isinstance(o, timedelta) else NotImplemented

    def __divmod__(self, o):
        if isinstance(o, timedelta):
            q, r = divmod(self.us, o.us)
            return q, self._mk(r)
        return NotImplemented

    def __eq__(self, o):
        return self.us == o.us if isinstance(o, timedelta) else NotImplemented

    def __lt__(self, o):
        return self.us < o.us if isinstance(o, timedelta) else NotImplemented

    def __le__(self, o):
        return self.us <= o.us if isinstance(o, timedelta) else NotImplemented

    def __gt__(self, o):
        return self.us > o.us if isinstance(o, timedelta) else NotImplemented

    def __ge__(self, o):
        return self.us >= o.us if isinstance(o, timedelta) else NotImplemented

    def __bool__(self):
        return bool(self.us != 0)

    def __hash__(self):
        return 0x5EED

    def _sx_hashkey(self):
        return ('timedelta', self.us)


class tzinfo:
    pass


class timezone(tzinfo):
    def __init__(self, offset, name=None):
        self.off = offset.us

    def utcoffset(self, dt):
        return timedelta._mk(self.off)

    def __eq__(self, o):
        return isinstance(o, timezone) and self.off == o.off

    def __hash__(self):
        return hash(self.off)

    def __repr__(self):
        return f'tz({self.off})'

    def tzname(self, dt):
        return repr(self)

    def _real(self):
        return _rdt.timezone(_rdt.timedelta(microseconds=self.off))


timezone.utc = timezone(timedelta(0))
UTC = timezone.utc


def _tz_of_real(tz):
    if tz is None:
        return None
    return timezone(timedelta._mk(
        tz.utcoffset(None) // _rdt.timedelta(microseconds=1)))


def _text_of(x, form):
    r = x._real()
    if r is None:
        return ISOStr(x, form)
    return {'iso': lambda: r.isoformat(), 'str': lambda: str(r),
            'repr': lambda: repr(r)}[form]()


def _isostr(s):
    """No opaque value is an ISO string."""
    if type(s) is SymVal:
        return 'v' if s.cat(lambda c: c is str) else None
    if type(s) is ISOStr:
        return 'repr'
    return s


class date(_DT):
    def __new__(cls, year, month=None, day=None):
        y, m, d = (v.__index__() for v in (year, month, day))
        return cls._mkord(_rdt.date(y, m, d).toordinal())

    @classmethod
    def _mkord(cls, o):
        self = object.__new__(date)
        if o < 1 or o > MAXORD:
            raise OverflowError('date value out of range')
        self.ord = o
        return self

    def _real(self):
        return None if is_sym(self.ord) else _rdt.date.fromordinal(self.ord)

    @classmethod
    def fromordinal(cls, n):
        if n < 1 or n > MAXORD:
            raise ValueError('ordinal out of range')
        if cls is datetime:
            return datetime._mk(n * DAY, None)
        return date._mkord(n)

    @classmethod
    def today(cls):
        raise Gap('today')

    @classmethod
    def fromisoformat(cls, s):
        if type(s) is ISOStr and s.form != 'repr':
            if s.kind == 'date':
                return date._mkord(s.value.ord)
            raise ValueError('Invalid isoformat string')
        r = _rdt.date.fromisoformat(_isostr(s))
        return date._mkord(r.toordinal())

    def toordinal(self):
        return self.ord

    def _field(self, name, hi):
        if not is_sym(self.ord):
            return getattr(_rdt.date.fromordinal(self.ord), name)
        f = ctx_uf('cal_' + name, z3.IntSort(), z3.IntSort())
        t = f(self.ord.t)
        E.add(z3.And(t >= 1, t <= hi))
        return mkint(t)

    year = property(lambda s: s._field('year', 9999))
    month = property(lambda s: s._field('month', 12))
    day = property(lambda s: s._field('day', 31))

    def weekday(self):
        return (self.ord + 6) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def isoformat(self):
        return _text_of(self, 'iso')

    def replace(self, year=None, month=None, day=None):
        if is_sym(self.ord):
            raise Gap('replace on symbolic date')
        r = _rdt.date.fromordinal(self.ord)
        return date(year or r.year, month or r.month, day or r.day)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return date._mkord(self.ord + o.days)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return date._mkord(self.ord - o.days)
        if isinstance(o, date) and not isinstance(o, datetime):
            return timedelta._mk((self.ord - o.ord) * DAY)
        return NotImplemented

    def __eq__(self, o):
        return self.ord == o.ord if isinstance(o, date) and not isinstance(o, datetime) else NotImplemented

    def _cmp(self, o):
        if isinstance(o, datetime):
            raise TypeError("can't compare datetime.datetime to datetime.date")
        return isinstance(o, date)

    def __lt__(self, o):
        return self.ord < o.ord if self._cmp(o) else NotImplemented

    def __le__(self, o):
        return self.ord <= o.ord if self._cmp(o) else NotImplemented

    def __gt__(self, o):
        return self.ord > o.ord if self._cmp(o) else NotImplemented

    def __ge__(self, o):
        return self.ord >= o.ord if self._cmp(o) else NotImplemented

    def __hash__(self):
        return 0x5EED

    def _sx_hashkey(self):
        return ('date', self.ord)


class time(_DT):
    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None,
                *, fold=0):
        for v, hi in ((hour, 24), (minute, 60), (second, 60),
                      (microsecond, SEC)):
            if not isinstance(v, int):
                raise TypeError('an integer is required')
            if v < 0 or v >= hi:
                raise ValueError('time component out of range')
        return time._mk(((hour * 60 + minute) * 60 + second) * SEC + microsecond,
                        tzinfo)

    @classmethod
    def _mk(cls, us, tz):
        self = object.__new__(time)
        self.us, self.tzinfo = us, tz
        return self

    def _real(self):
        if is_sym(self.us):
            return None
        t = (_rdt.datetime(1, 1, 1) + _rdt.timedelta(microseconds=self.us)).time()
        return t.replace(tzinfo=self.tzinfo._real() if self.tzinfo else None)

    @classmethod
    def fromisoformat(cls, s):
        if type(s) is ISOStr and s.form != 'repr':
            if s.kind == 'time':
                return time._mk(s.value.us, s.value.tzinfo)
            raise ValueError('Invalid isoformat string')
        r = _rdt.time.fromisoformat(_isostr(s))
        return time._mk(((r.hour * 60 + r.minute) * 60 + r.second) * SEC
                        + r.microsecond, _tz_of_real(r.tzinfo))

    hour = property(lambda s: s.us // (3600 * SEC))
    minute = property(lambda s: s.us // (60 * SEC) % 60)
    second = property(lambda s: s.us // SEC % 60)
    microsecond = property(lambda s: s.us % SEC)
    fold = 0

    def utcoffset(self):
        return None if self.tzinfo is None else timedelta._mk(self.tzinfo.off)

    def replace(self, hour=None, minute=None, second=None, microsecond=None,
                tzinfo=True, *, fold=None):
        return time(self.hour if hour is None else hour,
                    self.minute if minute is None else minute,
                    self.second if second is None else second,
                    self.microsecond if microsecond is None else microsecond,
                    self.tzinfo if tzinfo is True else tzinfo) \
            if any(x is not None for x in (hour, minute, second, microsecond)) \
            else time._mk(self.us, self.tzinfo if tzinfo is True else tzinfo)

    def isoformat(self):
        return _text_of(self, 'iso')

    def _key(self):
        return self.us - (self.tzinfo.off if self.tzinfo else 0)

    def __eq__(self, o):
        if not isinstance(o, time):
            return NotImplemented
        if (self.tzinfo is None) != (o.tzinfo is None):
            return False
        return self._key() == o._key()

    def _cmp(self, o):
        if not isinstance(o, time):
            return False
        if (self.tzinfo is None) != (o.tzinfo is None):
            raise TypeError("can't compare offset-naive and offset-aware times")
        return True

    def __lt__(self, o):
        return self._key() < o._key() if self._cmp(o) else NotImplemented

    def __le__(self, o):
        return self._key() <= o._key() if self._cmp(o) else NotImplemented

    def __gt__(self, o):
        return self._key() > o._key() if self._cmp(o) else NotImplemented

    def __ge__(self, o):
        return self._key() >= o._key() if self._cmp(o) else NotImplemented

    def __hash__(self):
        return 0x5EED

    def _sx_hashkey(self):
        return ('time', 0 if self.tzinfo is None else 1, self._key())


class datetime(date):
    def __new__(cls, year, month=None, day=None, hour=0, minute=0, second=0,
                microsecond=0, tzinfo=None, *, fold=0):
        d = date(year, month, day)
        return datetime.combine(d, time(hour, minute, second, microsecond,
                                        tzinfo))

    @classmethod
    def _mk(cls, us, tz):
        if us < DAY or us >= (MAXORD + 1) * DAY:
            raise OverflowError('date value out of range')
        self = object.__new__(datetime)
        self.dus, self.tzinfo = us, tz
        return self

    ord = property(lambda s: s.dus // DAY)
    us = property(lambda s: s.dus % DAY)

    def _real(self):
        if is_sym(self.dus):
            return None
        r = (_rdt.datetime(1, 1, 1)
             + _rdt.timedelta(microseconds=self.dus - DAY))
        return r.replace(tzinfo=self.tzinfo._real() if self.tzinfo else None)

    @classmethod
    def combine(cls, d, t, tzinfo=True):
        if not isinstance(d, date):
            raise TypeError('combine() argument 1 must be datetime.date')
        if not isinstance(t, time):
            raise TypeError('combine() argument 2 must be datetime.time')
        return datetime._mk(d.toordinal() * DAY + t.us,
                            t.tzinfo if tzinfo is True else tzinfo)

    @classmethod
    def now(cls, tz=None):
        raise Gap('now')

    @classmethod
    def fromisoformat(cls, s):
        if type(s) is ISOStr and s.form != 'repr':
            if s.kind == 'datetime':
                return datetime._mk(s.value.dus, s.value.tzinfo)
            if s.kind == 'date':
                return datetime._mk(s.value.ord * DAY, None)
            raise ValueError('Invalid isoformat string')
        return _from_real(_rdt.datetime.fromisoformat(_isostr(s)))

    def toordinal(self):
        return self.ord

    hour = property(lambda s: s.us // (3600 * SEC))
    minute = property(lambda s: s.us // (60 * SEC) % 60)
    second = property(lambda s: s.us // SEC % 60)
    microsecond = property(lambda s: s.us % SEC)
    fold = 0

    def date(self):
        return date._mkord(self.ord)

    def time(self):
        return time._mk(self.us, None)

    def timetz(self):
        return time._mk(self.us, self.tzinfo)

    def utcoffset(self):
        return None if self.tzinfo is None else timedelta._mk(self.tzinfo.off)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None,
                second=None, microsecond=None, tzinfo=True, *, fold=None):
        if year is None and month is None and day is None:
            t = time._mk(self.us, self.tzinfo).replace(
                hour, minute, second, microsecond, tzinfo)
            return datetime._mk(self.dus - self.us + t.us, t.tzinfo)
        if is_sym(self.dus):
            raise Gap('replace on symbolic datetime')
        r = self._real()
        d = date(year or r.year, month or r.month, day or r.day)
        t = time._mk(self.us, self.tzinfo).replace(
            hour, minute, second, microsecond, tzinfo)
        return datetime.combine(d, t)

    def isoformat(self, sep='T', timespec='auto'):
        if sep != 'T' or timespec != 'auto':
            raise Gap('isoformat options')
        return _text_of(self, 'iso')

    def __add__(self, o):
        if isinstance(o, timedelta):
            return datetime._mk(self.dus + o.us, self.tzinfo)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return datetime._mk(self.dus - o.us, self.tzinfo)
        if isinstance(o, datetime):
            if (self.tzinfo is None) != (o.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware "
                                "datetimes")
            return timedelta._mk(self._key() - o._key())
        return NotImplemented

    def _key(self):
        return self.dus - (self.tzinfo.off if self.tzinfo else 0)

    def __eq__(self, o):
        if not isinstance(o, datetime):
            return False if isinstance(o, date) else NotImplemented
        if (self.tzinfo is None) != (o.tzinfo is None):
            return False
        return self._key() == o._key()

    def _cmp(self, o):
        if not isinstance(o, datetime):
            if isinstance(o, date):
                raise TypeError("can't compare datetime.datetime to "
                                "datetime.date")
            return False
        if (self.tzinfo is None) != (o.tzinfo is None):
            raise TypeError("can't compare offset-naive and offset-aware "
                            "datetimes")
        return True

    def __lt__(self, o):
        return self._key() < o._key() if self._cmp(o) else NotImplemented

    def __le__(self, o):
        return self._key() <= o._key() if self._cmp(o) else NotImplemented

    def __gt__(self, o):
        return self._key() > o._key() if self._cmp(o) else NotImplemented

    def __ge__(self, o):
        return self._key() >= o._key() if self._cmp(o) else NotImplemented

    def __hash__(self):
        return 0x5EED

    def _sx_hashkey(self):
        return ('datetime', 0 if self.tzinfo is None else 1, self._key())


def _from_real(r):
    us = (((r.hour * 60 + r.minute) * 60 + r.second) * SEC + r.microsecond)
    return datetime._mk(r.toordinal() * DAY + us, _tz_of_real(r.tzinfo))


date.min, date.max = date(1, 1, 1), date(9999, 12, 31)
date.resolution = timedelta(days=1)
time.min, time.max = time(0), time(23, 59, 59, 999999)
time.resolution = datetime.resolution = timedelta(microseconds=1)
datetime.min = datetime(1, 1, 1)
datetime.max = datetime(9999, 12, 31, 23, 59, 59, 999999)
timedelta.resolution = timedelta(microseconds=1)
timedelta.min = timedelta(-MAXDELTA)
timedelta.max = timedelta(days=MAXDELTA, hours=23, minutes=59, seconds=59,
                          microseconds=999999)


class ISOStr(Sym):
    """A text (ISO string, str or repr) of a (symbolic) value, as a str
    proxy: equal exactly for equal fields and zones."""
    __slots__ = ('kind', 'value', 'form')

    def __init__(self, value, form='iso'):
        self.kind = type(value).__name__
        self.value, self.form = value, form

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return 0x5EED

    def _parts(self):
        v = self.value
        if self.kind == 'date':
            return v.ord, None
        if self.kind == 'timedelta':
            return v.us, None
        return (v.us if self.kind == 'time' else v.dus), \
            v.tzinfo and v.tzinfo.off

    def truth(self):
        return z3.BoolVal(True)

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is not ISOStr:
            if isinstance(o, str) and not is_sym(o) and (o[:4].isdigit() or o[:8] == 'datetime'):
                raise Gap('text of a symbolic date')
            return False
        (a, x), (b, y) = self._parts(), o._parts()
        if self.kind != o.kind or x != y:
            return False
        if self.form != o.form:
            if 'repr' in (self.form, o.form) or self.kind == 'datetime':
                return False
        return a == b

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _sx_hashkey(self):
        a, x = self._parts()
        return f'{self.form}_{self.kind}_{x}', a

    def _gap(self, *a, **k):
        raise Gap('text of a symbolic date')

    __getitem__ = __iter__ = __len__ = __add__ = __radd__ = __lt__ = _gap
    split = replace = startswith = endswith = join = _gap
    __gt__ = __le__ = __ge__ = __mod__ = lower = encode = _gap

    def __contains__(self, o):
        if self.form == 'iso' and type(o) is str:
            if o in (':', 'T') and self.kind in ('date', 'time', 'datetime'):
                return self.kind == 'datetime' or (o == ':' and self.kind == 'time')
            if o == '-' and self.kind in ('date', 'datetime'):
                return True
            if o == ' ':
                return False
        raise Gap('text of a symbolic date')

    def _strip(self, chars=None):
        if chars is not None:
            raise Gap('text of a symbolic date')
        return self

    strip = lstrip = rstrip = _strip

    def upper(self):
        if self.form != 'iso':
            raise Gap('text of a symbolic date')
        return self
