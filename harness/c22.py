"""C22: membership, index and count of date/time ranges."""
from sx.case import case
from harness import dts
from harness.dts import DAY
from harness.c21 import KINDS, STEPS

HOUR = 3600 * 10 ** 6
# steps of time-of-day ranges (dates and datetimes take any step): with both
# the step and the wrap at midnight symbolic the solver does not answer
TSTEPS = [1, -1, HOUR, -HOUR, 7 * 10 ** 6, -1000003, DAY - 1, 1 - DAY, DAY // 2]


def _agree(sx, r, v, n, equal, label=''):
    """v's membership, index and count agree with equal(i): v is value i."""
    found = v in r
    try:
        i = r.index(v)
    except ValueError:
        i = None
    sx.check(found == (i is not None), 'index and membership agree')
    c = r.count(v)
    if i is None:
        j = sx.int('j', 0)
        sx.assume(j < n)
        sx.check(sx.not_(equal(j)), 'a value that is one of them is found')
        sx.check(c == 0, 'its count is 0')
        sx.cover('out' + label)
    else:
        sx.check(sx.and_(i >= 0, i < n), 'its index is a position')
        sx.check(equal(i), 'the value at its index is the value')
        sx.check(c == 1, 'its count is 1')
        sx.cover('in' + label)
    return i


@case('C22', bound=4, cover=['in', 'out'], seconds=(400, 2500),
      note='ranges of any length, start and non-zero step (times: nine steps from 1 us to a day less 1 us, both signs), '
           'naive or of 3 UTC offsets; any value of the same kind and offset, or an instance of a subclass')
def member(sx):
    kind = sx.choose('kind', KINDS)
    m = sx.choose('zone', dts.ZONES) if kind != 'date' else None
    r, start, n, s = dts.ranges(sx, kind, m, steps=TSTEPS if kind == 'time' else None)
    v = dts.value(sx, kind, 'v', m)
    # an instance of a subclass equals the value it was made from
    w = sx.subclassed(v) if m is None and sx.flag('sub') else v
    _agree(sx, r, w, n, lambda i: dts.us(sx, kind, v) == dts.nth(sx, kind, start, s, i))


@case('C22', bound=4, cover=['in', 'out'], seconds=(300, 1500),
      note='datetime ranges and values with different UTC offsets: equal instants are equal; any length, start and step')
def offsets(sx):
    m1, m2 = sx.choose('zone', [0, 330]), sx.choose('zone2', [60, -720])
    start = dts.value(sx, 'datetime', 'start', m1, 3, 3652056)
    n, s = sx.int('len', 0), sx.int('step')
    sx.assume(sx.and_(s != 0, s <= dts.STEPMAX, s >= -dts.STEPMAX))
    end = sx.dt_us(start) + n * s
    sx.assume(sx.and_(end >= 3 * DAY, end < 3652056 * DAY))
    r = sx.fx.dtrange.DateOrTimeRange(start, n, sx.td(s))
    v = dts.value(sx, 'datetime', 'v', m2, 3, 3652056)
    _agree(sx, r, v, n, lambda i: dts.utc(sx, 'datetime', v, m2) ==
           dts.nth(sx, 'datetime', start, s, i) - m1 * 60 * dts.SEC)


@case('C22', bound=4, cover=['in', 'out'], seconds=(300, 1500),
      note='ranges made from a start and a stop (any, and any step; times: five steps), any value')
def built(sx):
    kind = sx.choose('kind', KINDS)
    a, b = dts.value(sx, kind, 'a'), dts.value(sx, kind, 'b')
    num, unit, s = dts.step(sx, kind, [None], steps=[1, -1, 7, -3600, 86399] if kind == 'time' else None)
    r = dts.build(sx, a, b, num, unit)
    v = dts.value(sx, kind, 'v')
    _agree(sx, r, v, sx.len(r), lambda i: dts.us(sx, kind, v) == dts.nth(sx, kind, a, s, i))


@case('C22', bound=4, cover=['in', 'out'], seconds=(300, 1500),
      note='any integers (or none) as start and stop of the search; ranges of any length and start, the steps of C21')
def bounds(sx):
    kind = sx.choose('kind', KINDS)
    r, start, n, s = dts.ranges(sx, kind, steps=STEPS[kind])
    v = dts.value(sx, kind, 'v')
    lo = sx.int('lo') if sx.flag('haslo') else None
    hi = sx.int('hi') if sx.flag('hashi') else None
    if lo is None and hi is None:
        return
    try:
        if hi is None:
            i = r.index(v, lo)
        elif sx.flag('named'):
            i = r.index(v, start=lo, stop=hi)
        else:
            i = r.index(v, lo, hi)
    except ValueError:
        i = None
    # the positions the search covers, as slices of lists have it
    a = 0 if lo is None else sx.ite(lo < 0, lo + n, lo)
    b = n if hi is None else sx.ite(hi < 0, hi + n, hi)
    if i is None:
        j = sx.int('j', 0)
        sx.assume(sx.and_(j < n, j >= a, j < b))
        sx.check(sx.not_(dts.us(sx, kind, v) == dts.nth(sx, kind, start, s, j)), 'found if it is between the bounds')
        sx.cover('out')
    else:
        sx.check(sx.and_(i >= 0, i < n, i >= a, i < b), 'a position between the bounds')
        sx.check(dts.us(sx, kind, v) == dts.nth(sx, kind, start, s, i), 'of the value')
        sx.cover('in')


@case('C22', bound=4, cover=['end'], seconds=(300, 1500),
      note='values of every other kind, naive and aware mixed, other objects; ranges of any length and start')
def others(sx):
    kind = sx.choose('kind', KINDS)
    m = sx.choose('zone', [None, 330]) if kind != 'date' else None
    r, start, n, s = dts.ranges(sx, kind, m, steps=STEPS[kind][:1])
    k = sx.choose('other', ['date', 'datetime', 'time', 'mixed', 'td', 'int', 'str', 'iso', 'none', 'opaque', 'range', 'tuple'])
    if k == kind:
        return
    if k in KINDS:
        v = dts.value(sx, k, 'v', sx.choose('vzone', [None, 330]) if k != 'date' else None)
    elif k == 'mixed':
        if kind == 'date':
            return
        v = dts.value(sx, kind, 'v', 330 if m is None else None)
    else:
        v = {'td': lambda: sx.td(sx.int('us', 0, DAY)), 'int': lambda: sx.int('num'), 'str': lambda: 'x',
             'iso': lambda: sx.iso(start), 'none': lambda: None, 'opaque': lambda: sx.val('val'),
             'range': lambda: r, 'tuple': lambda: (start,)}[k]()
    sx.check(v not in r, 'not in the range')
    sx.check(r.count(v) == 0, 'its count is 0')
    sx.check(sx.raises(ValueError, r.index, v) is not None, 'asking for its index raises ValueError')
    sx.cover('end')


@case('C22', bound=6, quick=dict(n=4), thorough=dict(n=6), cover=['in', 'out'], seconds=(200, 1500),
      note='slices of ranges (up to n values), any start and any value: membership as in the listed values')
def sliced(sx):
    kind = sx.choose('kind', KINDS)
    n = sx.small('n', 0, sx.P['n'])
    start = dts.value(sx, kind, 'start')
    s = sx.choose('step', STEPS[kind])
    if kind != 'time':
        end = dts.us(sx, kind, start) + n * s
        sx.assume(sx.and_(end >= DAY, end < 3652059 * DAY))
    r = sx.fx.dtrange.DateOrTimeRange(start, n, sx.td(s))[sx.choose('slc', [
        slice(1, None), slice(None, None, -1), slice(None, None, 2), slice(-2, None, -2), slice(0, 1)])]
    exp = [dts.us(sx, kind, x) for x in r]
    v = dts.value(sx, kind, 'v')
    i = _agree(sx, r, v, len(exp), lambda i: sx.or_(False, *[
        sx.and_(i == k, dts.us(sx, kind, v) == e) for k, e in enumerate(exp)]))
    if i is not None:
        sx.check(dts.us(sx, kind, r[i]) == dts.us(sx, kind, v), 'found at its index')


@case('C22', bound=4, cover=['end'], seconds=(100, 600),
      note='values at any position from 1500 on, in ranges of any greater length')
def far(sx):
    kind = sx.choose('kind', KINDS)
    s = {'date': DAY, 'time': 1, 'datetime': -7}[kind]
    start = dts.value(sx, kind, 'start')
    n, i = sx.int('len', 1501), sx.int('i', 1500)
    sx.assume(i < n)
    if kind == 'time':
        sx.assume(n < 3000)
    else:
        end = dts.us(sx, kind, start) + n * s
        sx.assume(sx.and_(end >= DAY, end < 3652059 * DAY))
    r = sx.fx.dtrange.DateOrTimeRange(start, n, sx.td(s))
    v = r[i]
    sx.check(v in r, 'a value of the range is in it')
    sx.check(r.index(v) == i, 'at its position')
    sx.check(r.count(v) == 1, 'once')
    sx.check(sx.raises(ValueError, r.index, v, 0, 1500) is not None, 'but not before')
    sx.check(r.index(v, 1500) == i, 'as there it is')
    sx.cover('end')

from harness import more  # noqa: E402,F401  (more cases)
