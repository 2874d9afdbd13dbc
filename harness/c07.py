"""C07: weighted_shuffle."""
from sx.case import case
from harness.common import is_permutation, is_submultiset, weights_for, WMAX, WMIN


def _weights(sx, name, n):
    ws = [sx.real(name, 0, WMAX) for _ in range(n)]
    for w in ws:
        sx.assume(sx.or_(sx.eq(w, 0), w >= WMIN))
    return ws


def _weight_of(sx, v, items, ws):
    t = 0
    for x, w in zip(items, ws):
        t = t + sx.ite(sx.eq(v, x), w, 0)
    return t


def _call(sx, items, ws, seed, number):
    rng = sx.random.Random(seed)
    f = sx.fx.mathtools.weighted_shuffle
    if number is None:
        return f(items, ws, rng)
    return f(items, ws, rng, number)


def _zero_last(sx, out, items, ws):
    """No zero-weight item comes out before (or instead of) a positive one."""
    wo = [_weight_of(sx, v, items, ws) for v in out]
    ok = [sx.or_(wo[p] > 0, sx.eq(wo[q], 0)) for p in range(len(wo)) for q in range(p + 1, len(wo))]
    if out and len(out) < len(items):
        zero_out = sx.or_(*[sx.eq(w, 0) for w in wo])
        for v, w in zip(items, ws):
            ok.append(sx.or_(sx.not_(zero_out), sx.eq(w, 0), sx.or_(*[sx.eq(o, v) for o in out])))
    return sx.and_(*ok) if ok else True


@case('C07', quick=dict(maxlen=3), thorough=dict(maxlen=4), bound=6, cover=['end', 'all', 'part'],
      seconds=(700, 6000),
      note='1..maxlen distinct items, any weights (0 or 2^-8..2^8), requested number any up to maxlen or left out')
def selection(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    items = sx.vals('item', n)
    sx.assume(sx.distinct(items))
    ws = _weights(sx, 'w', n)
    number = None if sx.flag('all') else sx.small('number', 0, n)
    arg = tuple(items) if n == 2 else items
    before, wbefore = list(items), list(ws)
    out = _call(sx, arg, ws, sx.int('seed'), number)
    k = n if number is None else number
    sx.check(isinstance(out, list) and len(out) == k, 'exactly the requested number')
    sx.obs(out)
    sx.check(sx.distinct(out) if out else True, 'each item from another position')
    sx.check(is_submultiset(sx, out, items), 'only the given items')
    sx.check(len(ws) == n and sx.eq(ws, wbefore), 'weights unmodified')
    sx.check(len(items) == n and sx.eq(items, before), 'items unmodified')
    sx.check(out is not items, 'a new list')
    sx.check(_zero_last(sx, out, items, ws), 'zero-weight items come last')
    sx.cover('all' if k == n else 'part')
    sx.cover('end')


@case('C07', quick=dict(maxlen=3), thorough=dict(maxlen=3), bound=6, cover=['end'],
      seconds=(500, 5000),
      note='same draws, the first item\'s weight raised by any amount')
def raise_first(sx):
    n = sx.small('len', 2, sx.P['maxlen'])
    items = list('abcd'[:n])
    ws = weights_for(sx, 'w', n)
    number = None if n == 2 else sx.choose('number', [1, 3])
    seed = sx.int('seed')
    out = _call(sx, items, ws, seed, number)
    f = items.index(out[0])
    raised = list(ws)
    raised[f] = ws[f] + sx.real('more', 2.0 ** -8, WMAX)
    again = _call(sx, items, raised, seed, number)
    sx.check(again[0] == out[0], 'raising the first item\'s weight leaves it first')
    sx.cover('end')


@case('C07', quick=dict(shapes=[(3, 1), (5, 2)]), thorough=dict(shapes=[(3, 1), (5, 2), (5, 1), (8, 3)]), bound=8,
      cover=['end'], seconds=(400, 4000),
      note='few of many: shapes (number of items, requested); weights from a table of three kinds, '
           'any draws')
def few_of_many(sx):
    n, k = sx.choose('shape', sx.P['shapes'])
    items = list(range(10, 10 + n))
    ws = sx.choose('ws', [[1] * n, [2.0 ** -i for i in range(n)],
                          [0, 3] + [1.5] * (n - 2), [0] * (n - k) + [2, 1, 1][:k]])
    keep = list(ws)
    rng = sx.random.Random(sx.int('seed'))
    out = sx.fx.mathtools.weighted_shuffle(items, ws, rng=rng, number=k)
    sx.obs(out)
    sx.check(len(out) == k, 'exactly the requested number')
    sx.check(sx.distinct(out), 'each item from another position')
    sx.check(is_submultiset(sx, out, items), 'only the given items')
    sx.check(ws == keep and items == list(range(10, 10 + n)), 'arguments unmodified')
    sx.check(_zero_last(sx, out, items, ws), 'zero-weight items come last')
    sx.cover('end')


@case('C07', quick=dict(maxlen=4), thorough=dict(maxlen=6), bound=6, cover=['end'], seconds=(60, 100),
      note='item and weight lists of different lengths')
def mismatch(sx):
    n, m = sx.small('n', 0, sx.P['maxlen']), sx.small('m', 0, sx.P['maxlen'])
    sx.assume(n != m)
    items, ws = sx.vals('item', n), [sx.real('w', 0, 9) for _ in range(m)]
    rng = sx.random.Random(1)
    f = sx.fx.mathtools.weighted_shuffle
    k = sx.choose('k', [None, 0, 1])
    sx.check(sx.raises(ValueError, f, items, ws, rng, k) is not None,
             'lists of different lengths raise ValueError')
    sx.cover('end')


@case('C07', quick=dict(shapes=[(3, 1), (5, 2), (3, 3)]), thorough=dict(shapes=[(3, 1), (5, 2), (3, 3), (8, 3)]),
      bound=8, cover=['end'], seconds=(200, 2000),
      note='items that are all equal but not identical: positions by identity, any draws')
def equal_items(sx):
    class Same:
        def __eq__(self, other):
            return isinstance(other, Same)

        def __hash__(self):
            return 1

        def __lt__(self, other):
            return False
    n, k = sx.choose('shape', sx.P['shapes'])
    items = [Same() for _ in range(n)]
    rng = sx.random.Random(sx.int('seed'))
    out = sx.fx.mathtools.weighted_shuffle(items, [1.0] * n, rng=rng, number=k)
    sx.check(len(out) == k, 'exactly the requested number')
    pos = [[i for i, x in enumerate(items) if x is o] for o in out]
    sx.check(all(len(p) == 1 for p in pos) and len({p[0] for p in pos}) == k, 'each item from another position')
    sx.cover('end')


@case('C07', quick=dict(maxlen=3), thorough=dict(maxlen=4), bound=6, cover=['end'], seconds=(100, 500),
      note='items possibly equal, equal weights, the default generator, other sequence types')
def shapes(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    kind = sx.choose('kind', ['range', 'str', 'dups'])
    items = (range(5, 5 + n) if kind == 'range' else 'wxyz'[:n] if kind == 'str'
             else [sx.val('same')] * n)
    f = sx.fx.mathtools.weighted_shuffle
    ws = sx.choose('ws', [[1] * n, tuple([0.5] * n)])
    out = f(items, ws) if sx.flag('default') else f(items, ws, sx.random.Random(sx.int('seed')), number=None)
    sx.check(is_permutation(sx, out, list(items)), 'all items, each position once')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
