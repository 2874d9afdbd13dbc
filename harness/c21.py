"""C21: indexing and slicing date/time ranges."""
from sx.case import case
from harness import dts
from harness.dts import DAY

KINDS = ['date', 'datetime', 'time']
HOUR = 3600 * 10 ** 6
STEPS = {'date': [DAY, -7 * DAY], 'datetime': [1, -HOUR], 'time': [HOUR, -7 * HOUR // 4]}


def _slice(sx, name, stepped):
    """Any slice: missing or any start, stop and (non-zero) step."""
    lo = sx.int(name + '_lo') if sx.flag(name + '_haslo') else None
    hi = sx.int(name + '_hi') if sx.flag(name + '_hashi') else None
    k = None
    if stepped == 'any':
        if sx.flag(name + '_hask'):
            k = sx.int(name + '_k')
            sx.assume(k != 0)
    elif stepped:
        k = sx.choose(name + '_k', [None] + stepped)
    return slice(lo, hi, k)


def _same(sx, kind, r, start, s, idx, name):
    """The range r holds the original's values at the positions idx."""
    n = sx.len(r)
    sx.check(n == sx.len(idx), 'as many values as the sliced list')
    if n == 0:
        sx.cover('empty')
        return
    j = sx.int(name, 0)
    sx.assume(j < n)
    x = r[j]
    sx.check(dts.us(sx, kind, x) == dts.nth(sx, kind, start, s, sx.getitem(idx, j)), 'the values of the sliced list')
    sx.cover('one' if n == 1 else 'more')


@case('C21', bound=4, cover=['in', 'negative', 'out'], seconds=(200, 800),
      note='ranges of any length, start and non-zero step (naive or aware); any integer index')
def index(sx):
    kind = sx.choose('kind', KINDS)
    m = sx.choose('zone', dts.ZONES) if kind != 'date' else None
    r, start, n, s = dts.ranges(sx, kind, m)
    i = sx.int('i')
    try:
        x = r[i]
    except IndexError:
        sx.check(sx.or_(i >= n, i < -n), 'IndexError only where the list raises it')
        sx.cover('out')
        return
    sx.check(sx.and_(i < n, i >= -n), 'IndexError wherever the list raises it')
    sx.check(dts.us(sx, kind, x) == dts.nth(sx, kind, start, s, sx.ite(i < 0, i + n, i)), 'the value of the list')
    sx.check(dts.is_kind(sx, kind, x), 'of the type of the start')
    if kind != 'date':
        tz = dts.zone(sx, m)
        sx.check(x.tzinfo == tz if tz is not None else x.tzinfo is None, 'in its zone')
    sx.cover('negative' if i < 0 else 'in')


@case('C21', bound=4, cover=['empty', 'one', 'more'], seconds=(500, 3000),
      note='ranges of any length, start and non-zero step; slices with any start and stop (or none) and steps '
           'none, 1, 2, 3, -1, -2')
def slices(sx):
    kind = sx.choose('kind', KINDS)
    r, start, n, s = dts.ranges(sx, kind)
    slc = _slice(sx, 'a', [1, 2, 3, -1, -2])
    part = r[slc]
    sx.check(isinstance(part, sx.fx.dtrange.DateOrTimeRange), 'a slice is a range')
    _same(sx, kind, part, start, s, sx.getitem(sx.range(0, n), slc), 'j')


@case('C21', bound=4, cover=['empty', 'one', 'more'], seconds=(400, 3000),
      note='ranges of any length and start, steps 1 day, -7 days (dates), 1 us, -1 h (datetimes), 1 h, -105 min '
           '(times); slices with any start, stop and non-zero step, or none')
def steps(sx):
    kind = sx.choose('kind', KINDS)
    m = sx.choose('zone', [None, 330]) if kind != 'date' else None
    r, start, n, s = dts.ranges(sx, kind, m, steps=STEPS[kind])
    slc = _slice(sx, 'a', 'any')
    part = r[slc]
    _same(sx, kind, part, start, s, sx.getitem(sx.range(0, n), slc), 'j')
    if kind != 'date' and n > 0 and sx.len(part) > 0:
        x = part[0]
        tz = dts.zone(sx, m)
        sx.check(x.tzinfo == tz if tz is not None else x.tzinfo is None, 'in the zone of the range')


@case('C21', quick=dict(k1=[-2], k2=[-1, 3]), thorough=dict(k1=[1, 2, -1, -3], k2=[2, -1, 3]), bound=4,
      cover=['empty', 'one', 'more'], seconds=(500, 4000),
      note='slices of slices: any starts and stops (or none), the slice steps listed; ranges of any length and start')
def twice(sx):
    kind = sx.choose('kind', KINDS)
    r, start, n, s = dts.ranges(sx, kind, steps=STEPS[kind][:1])
    a, b = _slice(sx, 'a', sx.P['k1']), _slice(sx, 'b', sx.P['k2'])
    part = r[a][b]
    _same(sx, kind, part, start, s, sx.getitem(sx.getitem(sx.range(0, n), a), b), 'j')


@case('C21', quick=dict(n=2), thorough=dict(n=4), bound=8, cover=['end'], seconds=(300, 2500),
      note='ranges of up to n values compared element by element with the sliced list; slice bounds in -n-2..n+2, '
           'steps in +-1..n+1; the slice listed, reversed and indexed from the end')
def listed(sx):
    kind = sx.choose('kind', KINDS)
    N = sx.P['n']
    n = sx.small('n', 0, N)
    start = dts.value(sx, kind, 'start')
    s = sx.choose('step', STEPS[kind])
    if kind != 'time':
        end = dts.us(sx, kind, start) + n * s
        sx.assume(sx.and_(end >= DAY, end < 3652059 * DAY))
    r = sx.fx.dtrange.DateOrTimeRange(start, n, sx.td(s))
    lo = sx.small('lo', -n - 1, n + 1) if sx.flag('haslo') else None
    hi = sx.small('hi', -n - 1, n + 1) if sx.flag('hashi') else None
    k = sx.choose('k', [None] + [x for i in range(1, N + 1) for x in (i, -i)])
    slc = slice(lo, hi, k)
    exp = [dts.nth(sx, kind, start, s, i) for i in list(range(n))[slc]]
    part = r[slc]
    got = [dts.us(sx, kind, x) for x in part]
    sx.check(len(got) == len(exp) and sx.and_(True, *[x == y for x, y in zip(got, exp)]), 'the sliced list')
    if exp:
        sx.check(dts.us(sx, kind, part[-1]) == exp[-1], 'its last value')
    sx.cover('end')

from harness import more  # noqa: E402,F401  (more cases)
