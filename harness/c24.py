"""C24: date/time range requests that are refused, and immutability."""
from sx.case import case
from harness import dts
from harness.dts import DAY
from harness.c21 import KINDS


def _junk(sx, k):
    return {'none': lambda: None, 'int': lambda: sx.int('i'), 'opaque': lambda: sx.val('v'), 'float': lambda: 1.5,
            'text': lambda: 'tomorrow', 'empty': lambda: '', 'almost': lambda: '2020-02-30', 'hours': lambda: '25:00',
            'list': lambda: [], 'td': lambda: sx.td(5), 'bytes': lambda: b'2020-01-01'}[k]()


ODD = [('2020-01-01 ', '2020-01-05'), (' 2020-01-01', '2020-01-05'), ('2020-01-01', '2020-01-05\n'), ('12:00 ', '13:00'),
       ('12:00', '\t13:00'), ('2020-01-01T10:00 ', '2020-01-01T11:00'), ('2020-1-1', '2020-01-05'),
       ('2020-13-01', '2020-13-05'), ('2021-02-29', '2021-03-01'), ('10:60', '11:00'), ('24:01', '25:00'),
       ('2020/01/01', '2020/01/05'), ('01-02-2020', '05-02-2020'), ('2020-01-01T', '2020-01-05T'), ('now', 'today'),
       ('10:00 am', '11:00 am'), ('2020-01-01', '10:00'), ('2020-01-01', '2020-01-05T00:00'), ('00:00', '2020-01-05T00:00'),
       ('0000-01-01', '0001-01-01'), ('10000-01-01', '10000-01-02'), ('+2020-01-01', '2020-01-05'), ('12:00:00.', '13:00')]


@case('C24', bound=4, cover=['refused'], seconds=(60, 300),
      note='literal texts that are no ISO dates or times, or of different kinds')
def not_iso(sx):
    a, b = sx.choose('texts', ODD)
    extra = sx.choose('extra', [(), (1,), (-1, 'days')])
    args = (a, b) if sx.flag('order') else (b, a)
    _refused(sx, 'a text that is no ISO date or time', sx.fx.dtrange.dtrange, *args, *extra)


JUNK = ['none', 'int', 'opaque', 'float', 'text', 'empty', 'almost', 'hours', 'list', 'td', 'bytes']


def _refused(sx, what, f, *a, **k):
    try:
        f(*a, **k)
    except ValueError:
        sx.cover('refused')
        return
    sx.fail(what + ' is refused')


@case('C24', bound=4, cover=['refused', 'kinds', 'junk'], seconds=(100, 500),
      note='starts and stops of different kinds (any values, objects or ISO strings), or not dates or times at all; '
           'with any step and unit')
def arguments(sx):
    f = sx.fx.dtrange.dtrange
    k1 = sx.choose('kind', KINDS)
    a = dts.value(sx, k1, 'a')
    if sx.flag('junk'):
        b = _junk(sx, sx.choose('what', JUNK))
        sx.cover('junk')
    else:
        k2 = sx.choose('kind2', [k for k in KINDS if k != k1])
        b = dts.value(sx, k2, 'b')
        if sx.flag('iso2'):
            b = sx.iso(b)
        sx.cover('kinds')
    if sx.flag('iso'):
        a = sx.iso(a)
    args = (a, b) if sx.flag('order') else (b, a)
    extra = sx.choose('extra', [(), (1,), (-2, 'days'), (1, 'hours')])
    _refused(sx, 'a start and stop of different kinds or none', f, *args, *extra)


@case('C24', bound=4, cover=['refused'], seconds=(100, 500), note='any values of each kind, units that do not exist')
def units(sx):
    f = sx.fx.dtrange.dtrange
    kind = sx.choose('kind', KINDS)
    a, b = dts.value(sx, kind, 'a'), dts.value(sx, kind, 'b')
    u = sx.choose('unit', ['day', 'years', 'months', '', 'Days', 'second', 'fortnights', 5, ('days',)])
    n = sx.choose('n', [1, -1, 86400])
    if sx.flag('named'):
        _refused(sx, 'an unknown unit', f, a, b, step=n, step_unit=u)
    else:
        _refused(sx, 'an unknown unit', f, a, b, n, u)


def _accepts(sx, kind, s):
    """Whether the kind allows a step of s microseconds."""
    if kind == 'date':
        return sx.truth(s % DAY == 0)
    if kind == 'time':
        return sx.truth(sx.and_(s < DAY, s > -DAY))
    return True


@case('C24', bound=4, cover=['refused', 'accepted'], seconds=(200, 1000),
      note='any start and stop, any number of any unit (and eighths of seconds and up to 285 years) a timedelta holds: refused exactly when '
           'the kind does not allow it')
def steps(sx):
    f = sx.fx.dtrange.dtrange
    kind = sx.choose('kind', KINDS)
    m = sx.choose('zone', [None, 0, 330]) if kind != 'date' else None
    a, b = dts.value(sx, kind, 'a', m), dts.value(sx, kind, 'b', m)
    unit = sx.choose('unit', list(dts.UNITS) + [None])
    size = dts.UNITS[unit or ('days' if kind == 'date' else 'seconds')]
    n = sx.int('n')
    s, num = n * size, n
    if size >= dts.SEC and sx.flag('frac'):
        s, num = n * (size // 8), n / 8
        sx.assume(sx.and_(s <= dts.FRACMAX, s >= -dts.FRACMAX))
    sx.assume(sx.and_(n != 0, s <= dts.STEPMAX, s >= -dts.STEPMAX))
    ok = _accepts(sx, kind, s)
    try:
        r = f(a, b, num) if unit is None else f(a, b, num, unit)
    except ValueError:
        sx.check(sx.not_(ok), 'every step the kind allows is accepted')
        sx.cover('refused')
        return
    sx.check(ok, 'a step the kind does not allow is refused')
    sx.check(sx.td_us(r.step) == s, 'and is the step of the range')
    sx.check(sx.eq(dts.us(sx, kind, r.start), dts.us(sx, kind, a)), 'the start is the start')
    sx.cover('accepted')


@case('C24', bound=4, cover=['refused', 'accepted'], seconds=(100, 500),
      note='ranges built from start, length and step directly: any start, length and step a timedelta holds')
def direct(sx):
    D = sx.fx.dtrange.DateOrTimeRange
    kind = sx.choose('kind', KINDS)
    a = dts.value(sx, kind, 'a')
    n, s = sx.int('len', 0), sx.int('step')
    sx.assume(sx.and_(s != 0, s <= dts.STEPMAX, s >= -dts.STEPMAX))
    ok = _accepts(sx, kind, s)
    try:
        r = D(a, n, sx.td(s))
    except ValueError:
        sx.check(sx.not_(ok), 'every step the kind allows is accepted')
        sx.cover('refused')
        return
    sx.check(ok, 'a step the kind does not allow is refused')
    sx.check(sx.and_(sx.td_us(r.step) == s, sx.len(r) == n, r.length == n), 'the given step and length')
    sx.cover('accepted')


@case('C24', bound=4, cover=['end'], seconds=(100, 500), note='objects that are no dates or times as start, no timedeltas as step')
def types(sx):
    D = sx.fx.dtrange.DateOrTimeRange
    kind = sx.choose('kind', KINDS)
    a = dts.value(sx, kind, 'a')
    j = _junk(sx, sx.choose('what', JUNK))
    if sx.flag('start'):
        _refused(sx, 'a start that is no date or time', D, j, 3, sx.td(DAY))
    elif not isinstance(j, type(sx.td(1))):
        _refused(sx, 'a step that is no timedelta', D, a, 3, j)
    sx.cover('end')


@case('C24', bound=4, cover=['end', 'empty'], seconds=(150, 800),
      note='start and stop as ISO strings of any values (naive or of 2 UTC offsets) or objects, default or given unit')
def iso(sx):
    f = sx.fx.dtrange.dtrange
    kind = sx.choose('kind', KINDS)
    m = sx.choose('zone', [None, 0, 330]) if kind != 'date' else None
    a, b = dts.value(sx, kind, 'a', m), dts.value(sx, kind, 'b', m)
    n = sx.int('n')
    unit = sx.choose('unit', [None, 'days' if kind == 'date' else 'minutes'])
    lim = 1000
    sx.assume(sx.and_(n != 0, n <= lim, n >= -lim))
    extra = (n,) if unit is None else (n, unit)
    how = sx.choose('how', ['both', 'start', 'stop'])
    x = sx.iso(a) if how != 'stop' else a
    y = sx.iso(b) if how != 'start' else b
    r, q = f(x, y, *extra), f(a, b, *extra)
    sx.check(sx.len(r) == sx.len(q), 'as many values')
    sx.check(dts.is_kind(sx, kind, r.start) and dts.us(sx, kind, r.start) == dts.us(sx, kind, a), 'the same start')
    if kind != 'date':
        sx.check(r.start.tzinfo == a.tzinfo if m is not None else r.start.tzinfo is None, 'in the same zone')
    size = dts.UNITS[unit or ('days' if kind == 'date' else 'seconds')]
    sx.check(sx.td_us(r.step) == n * size, 'days for dates and seconds otherwise, unless given')
    sx.check(sx.td_us(q.step) == n * size, 'for objects too')
    sx.check(r == q, 'the same range')
    sx.cover('empty' if sx.len(r) == 0 else 'end')


@case('C24', bound=4, cover=['end'], seconds=(60, 300),
      note='literal ISO strings of many forms read as the standard library reads them; step 1 if not given')
def literals(sx):
    a, b, kind, start, n = sx.choose('strings', [
        ('20200227', '20200302', 'date', 737482 * DAY, 4),
        ('19991231', '20000103', 'date', 730119 * DAY, 3),
        ('2020-W09-4', '2020-W10-1', 'date', 737482 * DAY, 4),
        ('20200229T235959', '20200301T000001', 'datetime', 737484 * DAY + 86399 * dts.SEC, 2),
        ('T101500', 'T101503', 'time', 36900 * dts.SEC, 3),
        ('2020-02-27', '2020-03-02', 'date', 737482 * DAY, 4),
        ('0001-01-01', '0001-01-03', 'date', DAY, 2),
        ('9999-12-29', '9999-12-31', 'date', 3652057 * DAY, 2),
        ('23:59:58', '00:00:01', 'time', 86398 * dts.SEC, 3),
        ('10:30', '10:30:02.5', 'time', 37800 * dts.SEC, 3),
        ('00:00', '00:00', 'time', 0, 86400),
        ('12:00:00.000001+05:30', '12:00:01+05:30', 'time', 43200 * dts.SEC + 1, 1),
        ('2020-02-29T23:59:59', '2020-03-01T00:00:01', 'datetime', 737484 * DAY + 86399 * dts.SEC, 2),
        ('2020-02-29 23:59:59.5', '2020-02-29 23:59:59.6', 'datetime', 737484 * DAY + 86399 * dts.SEC + 500000, 1),
        ('2020-02-29T10:00:00+01:00', '2020-02-29T09:00:03+00:00', 'datetime', 737484 * DAY + 36000 * dts.SEC, 3)])
    f = sx.fx.dtrange.dtrange
    i = sx.choose('step', [None, 1])
    r = f(a, b) if i is None else f(a, b, i)
    sx.check(dts.is_kind(sx, kind, r.start), 'the kind of the string')
    sx.check(dts.us(sx, kind, r.start) == start, 'its value')
    sx.check(sx.len(r) == n, 'the default step is one day or second')
    sx.check(sx.td_us(r.step) == (DAY if kind == 'date' else dts.SEC), 'of the default unit')
    sx.cover('end')


@case('C24', bound=4, cover=['end'], seconds=(150, 600),
      note='any range, before and after use: start, step, length and stop cannot be assigned, and nothing changes')
def immutable(sx):
    kind = sx.choose('kind', KINDS)
    r, start, n, s = dts.ranges(sx, kind, steps={'date': [DAY], 'datetime': [-1, DAY], 'time': [3600 * dts.SEC]}[kind])
    use = sx.choose('use', ['new', 'hash', 'value', 'slice', 'length', 'stop', 'same'])
    if use == 'hash':
        hash(r) if not sx.symbolic else sx.hash(r)
    elif use == 'value' and n > 0:
        r[0]
    elif use == 'slice':
        q = r[1:]
        for name in ('start', 'step', 'length'):
            sx.check(sx.raises(AttributeError, setattr, q, name, getattr(q, name)) is not None, 'nor of a slice')
    elif use == 'length':
        sx.len(r)
    elif use == 'stop' and kind != 'time':
        x = r.stop
        sx.check(dts.us(sx, kind, x) == dts.us(sx, kind, start) + n * s, 'the stop')
    other = dts.value(sx, kind, 'other')
    name = sx.choose('name', ['start', 'step', 'length'])
    v = {'start': other, 'step': sx.td(2 * s if kind != 'time' else s // 2), 'length': sx.int('len2', 0)}[name]
    if use == 'same':
        v = getattr(r, name)
    sx.check(sx.raises(AttributeError, setattr, r, name, v) is not None, 'cannot be assigned')
    sx.check(dts.us(sx, kind, r.start) == dts.us(sx, kind, start), 'the start stays')
    sx.check(sx.and_(sx.len(r) == n, r.length == n, sx.td_us(r.step) == s), 'step and length stay')
    if n > 0:
        i = sx.int('i', 0)
        sx.assume(i < n)
        sx.check(dts.us(sx, kind, r[i]) == dts.nth(sx, kind, start, s, i), 'the values stay')
    sx.cover('end')

from harness import more  # noqa: E402,F401  (more cases)
