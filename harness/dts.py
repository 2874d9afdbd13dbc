"""Shared pieces of the date/time range harnesses (C20-C24).

Oracles measure values in microseconds: dates as ordinal*DAY, datetimes as
ordinal*DAY + time of day (minus the UTC offset where compared), times as the
microsecond of the day.
"""
SEC = 10 ** 6
DAY = 86400 * SEC
UNITS = {'microseconds': 1, 'seconds': SEC, 'minutes': 60 * SEC,
         'hours': 3600 * SEC, 'days': DAY, 'weeks': 7 * DAY}
STEPMAX = 999999999 * DAY
FRACMAX = 285 * 366 * DAY      # beyond it floats do not hold microseconds
ZONES = [None, 0, 330, -720]


def zone(sx, minutes):
    return None if minutes is None else sx.tz(minutes)


def value(sx, kind, name, minutes=None, lo=1, hi=None):
    """Any value of the kind, with a UTC offset in minutes or naive."""
    if kind == 'date':
        return sx.date(name, lo, hi) if hi else sx.date(name)
    if kind == 'time':
        return sx.time(name, zone(sx, minutes))
    return (sx.datetime(name, zone(sx, minutes), lo, hi) if hi
            else sx.datetime(name, zone(sx, minutes)))


def us(sx, kind, x):
    """Local microseconds of a value."""
    if kind == 'date':
        return sx.ordinal(x) * DAY
    return sx.time_us(x) if kind == 'time' else sx.dt_us(x)


def utc(sx, kind, x, minutes):
    return us(sx, kind, x) - (minutes or 0) * 60 * SEC


def is_kind(sx, kind, x):
    d = sx.dt
    if kind == 'date':
        return isinstance(x, d.date) and not isinstance(x, d.datetime)
    return isinstance(x, d.time if kind == 'time' else d.datetime)


def step(sx, kind, units=None, frac=False, lim=STEPMAX, steps=None):
    """(the number, its unit name or None for the default, its microseconds);
    any non-zero size the kind allows."""
    if units is None:
        units = (['days', 'weeks'] if kind == 'date' else
                 [u for u in UNITS if kind == 'datetime' or u != 'weeks'])
    unit = sx.choose('unit', units)
    size = UNITS[unit or ('days' if kind == 'date' else 'seconds')]
    n = sx.int('n') if steps is None else sx.choose('n', steps)
    if frac and size >= SEC:
        # any number of eighths, or (ten years at most) of forty-thousandths
        den = 8 if sx.flag('eighths') else 40000
        s = n * (size // den)
        num = n / den
        lim = min(lim, FRACMAX)
        if den != 8:
            sx.assume(sx.and_(s <= 3660 * DAY, s >= -3660 * DAY))
    else:
        s, num = n * size, n
    sx.assume(n != 0)
    lim = DAY - 1 if kind == 'time' else lim
    sx.assume(sx.and_(s <= lim, s >= -lim))
    if kind == 'date' and frac:
        sx.assume(s % DAY == 0)
    return num, unit, s


def build(sx, start, stop, num, unit):
    f = sx.fx.dtrange.dtrange
    return f(start, stop, num) if unit is None else f(start, stop, num, unit)


def span(sx, kind, start, stop, s, off1=None, off2=None):
    """How far the values may run in the direction of the step (symbolic)."""
    if kind == 'time':
        d = us(sx, kind, stop) - us(sx, kind, start)
        if s > 0:
            return sx.ite(d > 0, d, d + DAY)
        return sx.ite(d < 0, -d, DAY - d)
    d = utc(sx, kind, stop, off2) - utc(sx, kind, start, off1)
    return d if s > 0 else -d


def nth(sx, kind, start, s, i):
    """Microseconds of the i-th value."""
    x = us(sx, kind, start) + i * s
    return x % DAY if kind == 'time' else x


def ranges(sx, kind, minutes=None, units=None, steps=None):
    """A range built directly from start, length and step with every value
    and its stop inside the type; length and start any, step any or one of
    `steps` (microseconds).  Returns (range, start, length, step us)."""
    start = value(sx, kind, 'start', minutes)
    n = sx.int('len', 0)
    if steps is None:
        s = sx.int('step')
        sx.assume(s != 0)
        lim = DAY - 1 if kind == 'time' else STEPMAX
        if kind == 'date':
            s = s * DAY
        sx.assume(sx.and_(s <= lim, s >= -lim))
    else:
        s = sx.choose('step', steps)
    if kind == 'time':
        sx.assume((n - 1) * s < DAY)
        sx.assume((n - 1) * s > -DAY)
    else:
        end = us(sx, kind, start) + n * s
        sx.assume(sx.and_(end >= DAY, end < 3652059 * DAY))
    r = sx.fx.dtrange.DateOrTimeRange(start, n, sx.td(s))
    return r, start, n, s
