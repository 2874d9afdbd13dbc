"""C25: chance, distribution-weighted choices and clamping."""
from sx.case import case
from harness.common import any_seed


@case('C25', bound=4, cover=['never', 'always', 'share'], seconds=(100, 500),
      note='any chance k/1024 from -2 to 3 (and the exact bounds as ints), any seed, any two draws')
def chance(sx):
    k = sx.int('k', -2048, 3072)
    c = sx.choose('type', ['real', 0, 1])
    if c == 'real':
        c = k / 1024
    else:
        sx.assume(k == c * 1024)
    em = sx.fx.emitters.chance(c, rng_seed=sx.int('seed')) if sx.flag('named') else sx.fx.emitters.chance(c, sx.int('seed'))
    outs = [em(), em()] if sx.flag('single') else em(2)
    sx.check(len(outs) == 2, 'two values')
    sx.check(all(isinstance(x, bool) or sx.symbolic for x in outs), 'truth values')
    t = [sx.truth(x) for x in outs]
    if c <= 0:
        sx.check(not t[0] and not t[1], 'never')
        sx.cover('never')
    elif c >= 1:
        sx.check(t[0] and t[1], 'always')
        sx.cover('always')
    else:
        u = sx.draws()
        if len(u) != 2:
            sx.gap('not one uniform draw for each value')
        # the draws that give True are [0, c) or, mirrored, [1-c, 1): for a
        # set that is neither some pair of draws fails both
        sx.check(sx.or_(sx.and_(*[sx.eq(x, d < c) for x, d in zip(t, u)]),
                        sx.and_(*[sx.eq(x, d >= 1 - c) for x, d in zip(t, u)])), 'the share c of the draws')
        sx.cover('share')


def _max(sx, a, b):
    return sx.ite(a < b, b, a)


def _poisson(sx, x, mu):
    p = sx.math.exp(-1 * mu)
    for i in range(1, x + 1):
        p = p * mu / i
    return p


def _gaussian(sx, x, mu, sigma):
    z = (x - mu) / sigma
    return sx.math.exp(-1 * (z * z) / 2) * (1 / (sx.math.sqrt(2 * sx.math.pi) * sigma))


def _settings(sx, em, items, ws, args):
    """em like a Choice given the weights and settings directly."""
    ref = sx.fx.emitters.Choice(items, ws, *args)
    sx.check(bool(em.replace) == bool(ref.replace), 'replace is passed on')
    sx.check(bool(em.replace_only_after_call) == bool(ref.replace_only_after_call), 'so is replace_only_after_call')
    sx.check(sx.eq(em.noun, args[2]), 'the noun')
    sx.check(sx.eq(em.rng_seed, args[3]), 'and the seed')
    sx.check(sx.eq(list(em.items), list(items)), 'the items')
    return ref


def _args(sx):
    return (sx.flag('replace'), sx.flag('after'), sx.choose('noun', ['', 'n']),
            sx.choose('seed', ['x', 0]) if sx.flag('lit') else sx.int('iseed'))


def _call(sx, f, items, own, args, floor):
    """The factory called positionally, by names, or with its defaults."""
    how = sx.choose('how', ['positional', 'names', 'floor'])
    if how == 'positional':
        return f(items, *own.values(), floor, *args), args, floor
    if how == 'names':
        return f(items, **own, weight_floor=floor, replace=args[0], replace_only_after_call=args[1], noun=args[2],
                 rng_seed=args[3]), args, floor
    return f(items, **own, rng_seed=args[3]), (True, False, '', args[3]), 0


@case('C25', quick=dict(n=3), thorough=dict(n=5), bound=6, cover=['end', 'floor', 'value'], seconds=(200, 1500),
      note='0..n items, any real mu from 1/64 to 32 (and ints), '
           'any floor from 0 to 1')
def poisson(sx):
    n = sx.small('n', 1, sx.P['n'])
    items = sx.vals('item', n)
    if sx.flag('real'):
        mu = sx.int('m64', 1, 2048) / 64
    else:
        mu = sx.int('mu', 1, 32)
    floor = sx.int('f1024', 0, 1024) / 1024 if sx.flag('floored') else 0
    em = sx.fx.emitters.poisson_choice(items, mu, floor, rng_seed=1)
    exp = [_max(sx, _poisson(sx, i + 1, mu), floor) for i in range(n)]
    w = list(em.weights)
    sx.check(len(w) == n, 'one weight per item')
    sx.check(sx.and_(*[sx.same(a, b) for a, b in zip(w, exp)]), 'the larger of the distribution and the floor')
    for a in w:
        sx.cover('floor' if a == floor else 'value')
    sx.cover('end')


@case('C25', quick=dict(n=3), thorough=dict(n=5), bound=6, cover=['end', 'floor', 'value'], seconds=(200, 1500),
      note='0..n items, any mu from -32 to 32 and sigma from 1/64 to 32 in 64ths, '
           'any floor from 0 to 1')
def gaussian(sx):
    n = sx.small('n', 1, sx.P['n'])
    items = sx.vals('item', n)
    mu, sigma = sx.int('m64', -2048, 2048) / 64, sx.int('s64', 1, 2048) / 64
    floor = sx.int('f1024', 0, 1024) / 1024 if sx.flag('floored') else 0
    em = sx.fx.emitters.gaussian_choice(items, mu, sigma, floor, rng_seed=1)
    exp = [_max(sx, _gaussian(sx, i + 1, mu, sigma), floor) for i in range(n)]
    w = list(em.weights)
    sx.check(len(w) == n, 'one weight per item')
    sx.check(sx.and_(*[sx.same(a, b) for a, b in zip(w, exp)]), 'the larger of the distribution and the floor')
    for a in w:
        sx.cover('floor' if a == floor else 'value')
    sx.cover('end')


@case('C25', bound=6, cover=['end', 'floor', 'value'], seconds=(150, 600),
      note='two items, all settings (any seed), any floor from 0 to 1; positional, named and default arguments')
def settings(sx):
    E = sx.fx.emitters
    items = sx.vals('item', 2)
    floor = sx.int('f1024', 0, 1024) / 1024
    if sx.flag('poisson'):
        em, args, floor = _call(sx, E.poisson_choice, items, {'mu': 2}, _args(sx), floor)
        exp = [_poisson(sx, i, 2) for i in (1, 2)]
    else:
        em, args, floor = _call(sx, E.gaussian_choice, items, {'mu': 1, 'sigma': 0.5}, _args(sx), floor)
        exp = [_gaussian(sx, i, 1, 0.5) for i in (1, 2)]
    w = list(em.weights)
    exp = [_max(sx, b, floor) for b in exp]
    sx.check(sx.and_(*[sx.and_(a - b <= 1e-9, b - a <= 1e-9) for a, b in zip(w, exp)]), 'the larger of the distribution and the floor')
    sx.cover('floor' if w[0] == floor else 'value')
    _settings(sx, em, items, w, args)
    sx.cover('end')


@case('C25', bound=6, cover=['end'], seconds=(100, 600),
      note='two items, mu 1 or sigma 1, all settings and any seed: the same draws give the same items as a choice '
           'emitter with those weights')
def draws(sx):
    E = sx.fx.emitters
    items = sx.vals('item', 2)
    sx.assume(sx.distinct(items))
    args = (sx.flag('replace'), sx.flag('after'), '', sx.int('seed'))
    if sx.flag('poisson'):
        em = E.poisson_choice(items, 1, 0, *args)
    else:
        em = E.gaussian_choice(items, 0, 1, 0, *args)
    ref = E.Choice(items, list(em.weights), *args)
    k = sx.choose('k', [None, 1, 2])
    a, b = (em(), ref()) if k is None else (em(k), ref(k))
    sx.check(sx.eq(a, b), 'the same values')
    sx.cover('end')


@case('C25', quick=dict(n=[180]), thorough=dict(n=[171, 300]), bound=6, cover=['end'], seconds=(100, 900),
      note='long item lists (180; thorough 171 and 300), any floor from 1/100 to 1: computed without overflow')
def long(sx):
    n = sx.choose('n', sx.P['n'])
    floor = sx.real('floor', '1/100', 1)
    mu = sx.choose('mu', [1, 3])
    if sx.flag('poisson'):
        em = sx.fx.emitters.poisson_choice(range(n), mu, floor)
        exp = [_poisson(sx, i, mu) for i in range(1, n + 1)]
    else:
        em = sx.fx.emitters.gaussian_choice(range(n), mu, 2, floor)
        exp = [_gaussian(sx, i, mu, 2) for i in range(1, n + 1)]
    w = em.weights
    sx.check(len(w) == n, 'one weight per item')
    exp = [_max(sx, b, floor) for b in exp[:12]]
    tol = 1e-9
    sx.check(sx.and_(*[sx.and_(a - b <= tol, b - a <= tol) for a, b in zip(w, exp)]), 'the first weights')
    sx.check(sx.and_(*[sx.same(a, floor) for a in w[12:]]), 'the floor for the long tail')
    sx.cover('end')


@case('C25', bound=4, cover=['in', 'low', 'high'], seconds=(60, 300),
      note='any real or integer number and bounds, either or both missing, given by position or name')
def clamp(sx):
    f = sx.fx.mathtools.clamp
    mk = sx.int if sx.flag('ints') else sx.real
    x = mk('x')
    mn = mk('mn') if sx.flag('has_mn') else None
    mx = mk('mx') if sx.flag('has_mx') else None
    r = f(x, mn, mx) if sx.flag('pos') else f(x, mn=mn, mx=mx)
    low = False if mn is None else x < mn
    high = False if mx is None else x > mx
    ok = sx.or_(sx.and_(sx.not_(low), sx.not_(high), r == x),
                sx.and_(low, False if mn is None else r == mn), sx.and_(high, False if mx is None else r == mx))
    sx.check(ok, 'the number or the bound it violates')
    sx.cover('low' if low else 'high' if high else 'in')
    sx.check(sx.eq(f(x), x), 'without bounds the number')

from harness import more  # noqa: E402,F401  (more cases)
