"""C23: equality and hashing of date/time ranges."""
from sx.case import case
from harness import dts
from harness.dts import DAY
from harness.c21 import KINDS, STEPS

HOUR = 3600 * 10 ** 6


def _any(sx, kind, name, minutes=None, n=None):
    """Any range of the kind: (range, start us (UTC), length, step us)."""
    start = dts.value(sx, kind, name, minutes, *((3, 3652056) if minutes else ()))
    if n is None:
        n = sx.int(name + '_len', 0)
    s = sx.int(name + '_step')
    sx.assume(s != 0)
    if kind == 'date':
        s = s * DAY
    lim = DAY - 1 if kind == 'time' else dts.STEPMAX
    sx.assume(sx.and_(s <= lim, s >= -lim))
    if kind == 'time':
        sx.assume((n - 1) * s < DAY)
        sx.assume((n - 1) * s > -DAY)
    else:
        end = dts.us(sx, kind, start) + n * s
        sx.assume(sx.and_(end >= DAY, end < 3652059 * DAY))
    r = sx.fx.dtrange.DateOrTimeRange(start, n, sx.td(s))
    return r, dts.utc(sx, kind, start, minutes), n, s


def _same(sx, a, b):
    """Same values, for date and datetime ranges (given as by _any)."""
    return sx.and_(a[2] == b[2], sx.or_(a[2] == 0, sx.and_(a[1] == b[1], sx.or_(a[2] == 1, a[3] == b[3]))))


def _pair(sx, kind, r, q, a, b, off1=0, off2=0):
    """Equality of r and q against their values; returns r == q."""
    eq = sx.truth(r == q)
    sx.check(sx.eq(sx.truth(q == r), eq), 'symmetric')
    sx.check(sx.eq(sx.truth(r != q), sx.not_(eq)), '!= is not ==')
    if eq:
        sx.check(sx.eq(sx.hash(r), sx.hash(q)), 'equal hashes')
        sx.check(sx.len(r) == sx.len(q), 'equal lengths')
        if sx.len(r) > 0:
            j = sx.int('j', 0)
            sx.assume(j < a[2])
            sx.check(dts.us(sx, kind, r[j]) - off1 == dts.us(sx, kind, q[j]) - off2, 'equal values')
            sx.cover('equal')
        else:
            sx.cover('empty')
    else:
        if kind != 'time':
            sx.check(sx.not_(_same(sx, a, b)), 'ranges with the same values are equal')
        sx.cover('unequal')
    return eq


@case('C23', bound=4, cover=['equal', 'empty', 'unequal'], seconds=(300, 1500),
      note='two ranges of the same kind with any starts, lengths and non-zero steps (times: within a day); datetimes '
           'also with two UTC offsets')
def pairs(sx):
    kind = sx.choose('kind', KINDS)
    m1, m2 = (sx.choose('z1', [None, 60]), sx.choose('z2', [None, 60, -330])) if kind == 'datetime' else (None, None)
    if (m1 is None) != (m2 is None):
        return
    a, b = _any(sx, kind, 'a', m1), _any(sx, kind, 'b', m2)
    _pair(sx, kind, a[0], b[0], a, b, (m1 or 0) * 60 * dts.SEC, (m2 or 0) * 60 * dts.SEC)


@case('C23', bound=4, cover=['equal', 'unequal'], seconds=(200, 1000),
      note='two ranges made from starts and stops (any): ranges with the same values are equal whatever their stops')
def stops(sx):
    kind = sx.choose('kind', KINDS)
    a1, b1, a2, b2 = (dts.value(sx, kind, x) for x in ('a1', 'b1', 'a2', 'b2'))
    lim = DAY - 1 if kind == 'time' else dts.STEPMAX
    unit = DAY if kind == 'date' else dts.SEC
    n1, n2 = sx.int('n1', 1, lim // unit), sx.int('n2', 1, lim // unit)
    if sx.flag('down'):
        n1, n2 = -n1, -n2
    f = sx.fx.dtrange.dtrange
    r, q = f(a1, b1, n1), f(a2, b2, n2)
    eq = sx.truth(r == q)
    n = sx.len(r)
    same = sx.and_(n == sx.len(q), sx.or_(n == 0, sx.and_(dts.us(sx, kind, a1) == dts.us(sx, kind, a2),
                                                         sx.or_(n == 1, n1 == n2))))
    if eq:
        sx.check(same, 'equal ranges have the same values')
        sx.check(sx.eq(sx.hash(r), sx.hash(q)), 'equal hashes')
        sx.cover('equal')
    else:
        sx.check(sx.not_(same), 'ranges with the same values are equal')
        sx.cover('unequal')


@case('C23', bound=6, quick=dict(ks=[None, 2, -1]), thorough=dict(ks=[None, 2, 3, -1, -2, -3]), cover=['equal', 'unequal'],
      seconds=(300, 1500),
      note='two slices (any starts and stops, the steps listed) of ranges of any length and start')
def slices(sx):
    kind = sx.choose('kind', ['date', 'datetime'])
    r, start, n, s = dts.ranges(sx, kind, steps=STEPS[kind][:1])
    out = []
    for x in 'ab':
        slc = slice(sx.int(x + '_lo') if sx.flag(x + '_haslo') else None, sx.int(x + '_hi'),
                    sx.choose(x + '_k', sx.P['ks'] if x == 'a' else [None, 2]))
        pos = sx.getitem(sx.range(0, n), slc)
        out.append((r[slc], pos))
    (a, p), (b, q) = out
    n, m = sx.len(p), sx.len(q)
    eq = sx.truth(a == b)
    same = sx.truth(n == m)
    if same and n > 0:
        same = sx.truth(sx.getitem(p, 0) == sx.getitem(q, 0))
        if same and n > 1:
            same = sx.truth(sx.getitem(p, 1) == sx.getitem(q, 1))
    sx.check(sx.eq(eq, same), 'equal exactly when they have the same values')
    if eq:
        sx.check(sx.eq(sx.hash(a), sx.hash(b)), 'equal hashes')
    sx.cover('equal' if eq else 'unequal')


@case('C23', quick=dict(kinds=['datetime']), thorough=dict(kinds=KINDS), bound=4, cover=['chain', 'end'], seconds=(200, 1500),
      note='three ranges with any starts, lengths and steps: transitive; itself and a copy of its slots: reflexive')
def laws(sx):
    kind = sx.choose('kind', sx.P['kinds'])
    a, b, c = (_any(sx, kind, x)[0] for x in 'abc')
    if a == b:
        if b == c:
            sx.check(a == c, 'transitive')
            sx.cover('chain')
    sx.check(a == a, 'reflexive')
    sx.check(a[:] == a, 'a full slice is equal')
    sx.check(sx.eq(sx.hash(a), sx.hash(a)), 'a stable hash')
    sx.check(sx.eq(sx.hash(a), sx.hash(a[:])), 'equal hashes')
    sx.cover('end')


@case('C23', bound=4, cover=['end', 'empties'], seconds=(150, 600),
      note='ranges against every other type of object, and ranges of different kinds')
def others(sx):
    kind = sx.choose('kind', KINDS)
    r = _any(sx, kind, 'a', None, sx.small('n', 0, 2))[0]
    o = sx.choose('other', ['list', 'tuple', 'none', 'int', 'str', 'opaque', 'range', 'start', 'td', 'kind'])
    if o == 'kind':
        k2 = sx.choose('kind2', [k for k in KINDS if k != kind])
        q = _any(sx, k2, 'b', None, sx.small('m', 0, 2))[0]
        e = sx.truth(r == q)
        both = sx.len(r) == 0 and sx.len(q) == 0
        sx.check(e == both, 'only empty ranges of different kinds are equal')
        if both:
            sx.check(sx.eq(sx.hash(r), sx.hash(q)), 'equal hashes')
            sx.cover('empties')
        return
    x = {'list': lambda: list(r), 'tuple': lambda: tuple(r), 'none': lambda: None, 'int': lambda: sx.int('i'),
         'str': lambda: 'x', 'opaque': lambda: sx.val('v'), 'range': lambda: range(0, 2), 'start': lambda: r.start,
         'td': lambda: r.step}[o]()
    sx.check(not sx.truth(r == x) and not sx.truth(x == r), 'a range is not any other object')
    sx.check(sx.truth(r != x), 'nor says it is not different')
    sx.cover('end')

from harness import more  # noqa: E402,F401  (more cases)
