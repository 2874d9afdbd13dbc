"""C03: replacement only after each call."""
from sx.case import case
from harness.common import LISTS, count, is_permutation, is_submultiset, weights_for
from harness.c02 import request


def make(sx, items, ws, seed):
    return sx.fx.emitters.Choice(items, ws, replace_only_after_call=True,
                                 rng_seed=seed)


def _call(sx, em, items, log):
    """One operation; checks it and returns what it gave (None: refused)."""
    n = len(items)
    k = None if sx.flag('single') else sx.int('k', 0)
    got, err = request(em, k)
    if err is not None:
        sx.check(k is not None and k > n, 'only more values than items are refused')
        sx.cover('refused')
        log.append((k, None))
        return
    if k is not None:
        sx.check(k <= n, 'more values than items raise ValueError')
        k = sx.pick(k)
        sx.check(isinstance(got, list) and len(got) == k, 'exactly k values')
    sx.obs(got)
    sx.check(is_submultiset(sx, got, items), 'no item twice in one call')
    if k == n:
        sx.check(is_permutation(sx, got, items), 'all items: a permutation')
    log.append((k, got))


def _state_free(sx, em, make_twin, n):
    """em answers like a new emitter whose generator is in the same state."""
    twin = make_twin()
    twin.rng.setstate(em.rng.getstate())
    k = sx.small('probe', 1, n)
    a, b = em(k), twin(k)
    sx.check(sx.eq(a, b), 'every call draws from the full pool')
    sx.cover('end')


@case('C03', quick=dict(maxlen=3, calls=1), thorough=dict(maxlen=4, calls=2), bound=5,
      cover=['refused', 'end'], seconds=(300, 3000),
      note='1..maxlen opaque items, possibly equal, no weights; `calls` calls, any request size')
def unweighted(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    if len(items) > 2:
        sx.assume(sx.distinct(items))
    seed = sx.int('seed')
    em = make(sx, items, None, seed)
    log = []
    for _ in range(sx.P['calls']):
        _call(sx, em, items, log)
    _state_free(sx, em, lambda: make(sx, items, None, seed), len(items))


@case('C03', quick=dict(maxlen=3, calls=1, zerolen=2), thorough=dict(maxlen=3, calls=2, zerolen=3), bound=4,
      cover=['refused', 'end'], seconds=(600, 5000),
      note='as unweighted, any positive weights, up to zerolen items also zero weights')
def weighted(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    if len(items) > 2:
        sx.assume(sx.distinct(items))
    ws = weights_for(sx, 'w', len(items), zero=len(items) <= sx.P['zerolen'])
    seed = sx.int('seed')
    em = make(sx, items, ws, seed)
    log = []
    for _ in range(sx.P['calls']):
        _call(sx, em, items, log)
    if len(items) <= sx.P['zerolen']:
        _state_free(sx, em, lambda: make(sx, items, ws, seed), len(items))


@case('C03', quick=dict(k=2), thorough=dict(k=2), bound=6, cover=['end'], seconds=(200, 1500),
      note='five items with positive weights, two requested: the rejection-sampling branch')
def few_of_many(sx):
    items = list('abcde')
    free = [sx.real('w', 2.0 ** -10, 2.0 ** 10) for _ in range(2)]
    ws = [free[0], 1, free[1], 2, 1]
    seed = sx.int('seed')
    em = make(sx, items, ws, seed)
    for _ in range(2):
        got = em(2)
        sx.check(len(got) == 2 and got[0] != got[1], 'two different items')
        sx.check(all(x in items for x in got), 'configured items only')
    sx.cover('end')


@case('C03', bound=4, cover=['end'], seconds=(100, 300),
      note='switching the mode on an emitter that never replaced, after it handed out some items')
def switched_on(sx):
    items = sx.vals('item', sx.small('len', 2, 3))
    sx.assume(sx.distinct(items))
    seed = sx.int('seed')
    em = sx.fx.emitters.Choice(items, replace=sx.flag('replace'), rng_seed=seed)
    used = sx.choose('used', [0, 1, len(items)])
    em(used)
    em.replace_only_after_call = True
    if sx.flag('refused'):
        got, err = request(em, len(items) + 1)
        sx.check(err is not None, 'more values than items raise ValueError')
    _state_free(sx, em, lambda: make(sx, items, None, seed), len(items))


@case('C03', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end', 'refused'], seconds=(150, 600),
      note='1..n items, possibly equal, with or without positive weights: the mode switched on (and off and on) later, from any '
           'of the other two modes, weights given before or after; any request')
def modes(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['n']))
    n = len(items)
    if n > 2:
        sx.assume(sx.distinct(items))
    how = sx.choose('how', ['new', 'used', 'late', 'onoff'])
    ws = weights_for(sx, 'w', n, zero=False) if (n == 1 or how == 'late') and sx.flag('weighted') else None
    seed = sx.int('seed')
    em = sx.fx.emitters.Choice(items, replace=sx.flag('replace'), rng_seed=seed)
    late = how == 'late' and ws
    if not late:
        em.weights = ws
    if how != 'new':
        em(1)
    em.replace_only_after_call = True
    if how == 'onoff':
        em.replace_only_after_call = False
        em(1)
        em.replace_only_after_call = True
    if late:
        em.weights = ws
    sx.check(em.replace is True and em.replace_only_after_call is True, 'the mode is on')
    k = sx.choose('k', [n, n + 1])
    got, err = request(em, k)
    if k > n:
        sx.check(err is not None, 'more values than items raise ValueError')
        sx.cover('refused')
    else:
        sx.check(err is None and len(got) == k and sx.truth(is_submultiset(sx, got, items)), 'no item twice in one call')
    _state_free(sx, em, lambda: make(sx, items, ws, seed), n)


@case('C03', quick=dict(n=4), thorough=dict(n=5), bound=6, cover=['end', 'more'], seconds=(200, 1000),
      note='3..n different items, one or two of them with a positive weight (any), the others with weight zero: up to all requested')
def mostly_zero(sx):
    n = sx.small('n', 3, sx.P['n'])
    items = list('abcde')[:n]
    i = sx.small('heavy', 0, n - 1)
    ws = [0] * n
    ws[i] = sx.real('w', 2.0 ** -8, 2.0 ** 8)
    pos = 1
    if sx.flag('two'):
        ws[(i + 1) % n] = 1
        pos = 2
    em = make(sx, items, ws, sx.int('seed'))
    k = sx.small('k', 1, n)
    got = em(k)
    sx.check(isinstance(got, list) and len(got) == k, 'exactly k values')
    sx.check(len(set(got)) == k and set(got) <= set(items), 'no item twice in one call')
    if k > pos:
        sx.cover('more')
    sx.cover('end')


@case('C03', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(100, 600),
      note='n items out of 4 that cannot be hashed (equal ones too) or lists of an opaque value; any request')
def unhashable(sx):
    items = [[sx.val('in')] if sx.flag('own') else sx.choose('item', LISTS[:4]) for _ in range(sx.P['n'])]
    seed = sx.int('seed')
    em = make(sx, items, None, seed)
    log = []
    _call(sx, em, items, log)
    _state_free(sx, em, lambda: make(sx, items, None, seed), len(items))


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
