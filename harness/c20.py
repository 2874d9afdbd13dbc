"""C20: the values of date/time ranges."""
from sx.case import case
from harness import dts
from harness.dts import DAY


def _members(sx, r, kind, start, s, minutes):
    """r's value at any position i."""
    n = sx.len(r)
    i = sx.int('i', 0)
    sx.assume(i < n)
    x = r[i]
    sx.check(dts.is_kind(sx, kind, x), 'values of the type of the start')
    sx.check(dts.us(sx, kind, x) == dts.nth(sx, kind, start, s, i), 'the i-th value is start + i*step')
    if kind != 'date':
        tz = dts.zone(sx, minutes)
        sx.check(x.tzinfo == tz if tz is not None else x.tzinfo is None, 'in the zone of the start')


@case('C20', bound=4, cover=['empty', 'one', 'many', 'all'], seconds=(300, 1500),
      note='any date, datetime or time as start and stop (years 1-9999, microseconds, naive or any of 3 UTC offsets), '
           'any non-zero step up to 285 years (times: under a day) in any unit, any position')
def values(sx):
    kind = sx.choose('kind', ['date', 'datetime', 'time'])
    m = sx.choose('zone', dts.ZONES) if kind != 'date' else None
    start, stop = dts.value(sx, kind, 'a', m), dts.value(sx, kind, 'b', m)
    num, unit, s = dts.step(sx, kind)
    r = dts.build(sx, start, stop, num, unit)
    d = dts.span(sx, kind, start, stop, s)
    n = sx.len(r)
    k = s if s > 0 else -s
    if d <= 0:
        sx.check(n == 0, 'empty if the stop lies in the other direction')
        sx.cover('empty')
        return
    sx.check(sx.and_((n - 1) * k < d, d <= n * k), 'its length is the number of values before the stop')
    _members(sx, r, kind, start, s, m)
    sx.cover('many' if n > 1 else 'one')
    sx.cover('all')


@case('C20', bound=4, cover=['end', 'other'], seconds=(200, 800),
      note='start and stop with different UTC offsets (datetimes); default units; the first and last two days of the calendar left out')
def zones(sx):
    kind = sx.choose('kind', ['datetime', 'default'])
    if kind == 'datetime':
        m1, m2 = sx.choose('zone', [0, 330, -720]), sx.choose('zone2', [0, 765, -1])
        start, stop = dts.value(sx, kind, 'a', m1, 3, 3652056), dts.value(sx, kind, 'b', m2, 3, 3652056)
        num, unit, s = dts.step(sx, kind, ['seconds', 'days'])
    else:
        m1 = m2 = None
        kind = sx.choose('of', ['date', 'datetime', 'time'])
        start, stop = dts.value(sx, kind, 'a'), dts.value(sx, kind, 'b')
        num, unit, s = dts.step(sx, kind, [None], False)
    _checks(sx, kind, start, stop, num, unit, s, m1, m2)


def _checks(sx, kind, start, stop, num, unit, s, m1=None, m2=None):
    r = dts.build(sx, start, stop, num, unit)
    d = dts.span(sx, kind, start, stop, s, m1, m2)
    n = sx.len(r)
    k = s if s > 0 else -s
    if d <= 0:
        sx.check(n == 0, 'empty if the stop lies in the other direction')
        sx.cover('other')
        return
    sx.check(sx.and_((n - 1) * k < d, d <= n * k), 'its length is the number of values before the stop')
    _members(sx, r, kind, start, s, m1)
    sx.cover('end')


@case('C20', bound=4, cover=['end', 'other'], seconds=(200, 800),
      note='naive dates, datetimes and times with fractional steps in eighths and 40000ths of a unit (hours, days or weeks)')
def fractions(sx):
    kind = sx.choose('of', ['date', 'datetime', 'time'])
    start, stop = dts.value(sx, kind, 'a'), dts.value(sx, kind, 'b')
    num, unit, s = dts.step(sx, kind, ['weeks' if kind == 'date' else 'hours', 'days'], True)
    _checks(sx, kind, start, stop, num, unit, s)


@case('C20', quick=dict(n=4), thorough=dict(n=8), bound=8, cover=['end'], seconds=(200, 800),
      note='ranges of up to n values listed, reversed, unpacked and iterated: any start and step, any stop that '
           'leaves that many values')
def listed(sx):
    kind = sx.choose('kind', ['date', 'datetime', 'time'])
    m = sx.choose('zone', [None, 330]) if kind != 'date' else None
    start, stop = dts.value(sx, kind, 'a', m), dts.value(sx, kind, 'b', m)
    num, unit, s = dts.step(sx, kind, [None])
    d = dts.span(sx, kind, start, stop, s)
    k = s if s > 0 else -s
    n = sx.small('n', 0, sx.P['n'])
    sx.assume(sx.and_((n - 1) * k < d, d <= n * k) if n else d <= 0)
    r = dts.build(sx, start, stop, num, unit)
    exp = [dts.nth(sx, kind, start, s, i) for i in range(n)]
    got = list(r)
    sx.check(len(got) == n, 'as many values')
    sx.check(sx.and_(True, *[dts.us(sx, kind, x) == e for x, e in zip(got, exp)]), 'start, start + step, ...')
    sx.check(all(dts.is_kind(sx, kind, x) for x in got), 'of the type of the start')
    back = list(reversed(r))
    sx.check(len(back) == n and sx.and_(True, *[dts.us(sx, kind, x) == e for x, e in zip(back, exp[::-1])]),
             'the same backwards')
    again = [x for x in r]
    sx.check(len(again) == n and sx.and_(True, *[dts.us(sx, kind, x) == e for x, e in zip(again, exp)]), 'and again')
    sx.check(bool(r) == (n > 0), 'true unless empty')
    sx.cover('end')


@case('C20', bound=4, cover=['end'], seconds=(100, 400),
      note='time ranges from and to the same time of day, and built from any length directly')
def full_day(sx):
    m = sx.choose('zone', [None, -720])
    t = dts.value(sx, 'time', 'a', m)
    num, unit, s = dts.step(sx, 'time', ['microseconds', 'minutes', 'hours'])
    r = dts.build(sx, t, t, num, unit)
    n = sx.len(r)
    k = s if s > 0 else -s
    sx.check(sx.and_((n - 1) * k < DAY, n * k >= DAY), 'covers one full day')
    _members(sx, r, 'time', t, s, m)
    sx.cover('end')

from harness import more  # noqa: E402,F401  (more cases)
