"""C05: counters of choice emitters."""
from sx.case import case
from harness.common import LISTS, POOL, count, distinct_count, remaining_distinct, pooled, weights_for
from harness.c02 import request


def _report(sx, em, items, out, replacing):
    """Checks all reported numbers against the items and what was emitted."""
    ni, nv, eu = em.num_unique_items, em.num_unique_values, em.emits_unique_values
    if replacing:
        sx.check(sx.eq(ni, len(items)), 'all items can be chosen')
        sx.check(sx.eq(nv, distinct_count(sx, items)), 'all different values can be chosen')
        sx.check(not eu, 'no uniqueness claim')
    else:
        left = len(items) - len(out)
        val = remaining_distinct(sx, items, out)
        sx.check(sx.eq(ni, left), 'items not handed out yet')
        sx.check(sx.eq(nv, val), 'different values not handed out yet')
        sx.check(sx.eq(bool(eu), sx.eq(left, val)), 'unique exactly if no value is left twice')
    sx.obs([ni, nv])


@case('C05', quick=dict(maxlen=3, calls=2, resetlen=2),
      thorough=dict(maxlen=3, calls=3, resetlen=3), bound=4,
      cover=['end', 'drained'], seconds=(500, 4000),
      note='1..maxlen opaque items, possibly equal, no weights; `calls` operations of '
           'one/many/reset/seed, numbers read after each')
def never_replace(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    em = sx.fx.emitters.Choice(items, replace=False, rng_seed=sx.int('seed'))
    out = []
    _report(sx, em, items, out, False)
    for i in range(sx.P['calls']):
        # the last operation is a restart only: one draw per path is enough
        op = sx.choose('op', ['one', 'many', 'restart'] if i and len(items) <= sx.P['resetlen'] else ['one', 'many'])
        if op == 'restart':
            if sx.flag('reset'):
                em.reset()
            else:
                em.seed(sx.int('reseed'))
            out = []
        else:
            k = None if op == 'one' else sx.int('k', 0)
            got, err = request(em, k)
            if err is None:
                out = out + got
        if len(out) == len(items):
            sx.cover('drained')
        _report(sx, em, items, out, False)
    sx.cover('end')


@case('C05', quick=dict(maxlen=3), thorough=dict(maxlen=3), bound=4, cover=['end'],
      seconds=(300, 3000), note='weighted, one partial request, then the weights are replaced')
def weights_change(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    n = len(items)
    ws = [sx.real('w', 2.0 ** -10, 2.0 ** 10) for _ in items]
    em = sx.fx.emitters.Choice(items, ws, replace=False, rng_seed=3)
    k = sx.small('k', 0, n)
    out = em(k)
    _report(sx, em, items, out, False)
    if n < 3:
        how = sx.choose('how', ['weights', 'cum_weights', 'none'])
        if how == 'weights':
            em.weights = [1] * n
        elif how == 'cum_weights':
            em.cum_weights = list(range(1, n + 1))
        else:
            em.weights = None
        _report(sx, em, items, [], False)
        out = em(1)
        _report(sx, em, items, out, False)
    sx.cover('end')


@case('C05', quick=dict(maxlen=2), thorough=dict(maxlen=3), bound=4, cover=['end'],
      seconds=(300, 3000),
      note='mode switches between never/always/after-call replacement after partial use')
def switching(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    n = len(items)
    mode = sx.choose('mode', ['never', 'always', 'after_call'])
    em = sx.fx.emitters.Choice(items, replace=mode == 'always',
                               replace_only_after_call=mode == 'after_call', rng_seed=1)
    k = sx.choose('k', [0, 1, n])
    out = em(k)
    _report(sx, em, items, out, mode != 'never')
    if mode == 'never':
        if sx.flag('same'):
            em.replace = False          # no change: the count goes on
            em.replace_only_after_call = False
            _report(sx, em, items, out, False)
        if sx.flag('after'):
            em.replace_only_after_call = True
        else:
            em.replace = True
        _report(sx, em, items, [], True)
        em.replace = False
        _report(sx, em, items, [], False)
    else:
        em.replace = False
        _report(sx, em, items, [], False)
        if n < 3:
            out = em(k)
        else:
            out = []
        _report(sx, em, items, out, False)
        em.replace = True
        _report(sx, em, items, [], True)
    sx.cover('end')


@case('C05', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(100, 1000),
      note='n values out of 8 of several kinds (equal ones of different types, different ones with the same text), '
           'then one equal to the first')
def kinds(sx):
    items = pooled(sx, 'item', sx.P['n'], POOL[:8])
    items.append(items[0])
    em = sx.fx.emitters.Choice(items, replace=False, rng_seed=1)
    _report(sx, em, items, [], False)
    out = em(2)
    _report(sx, em, items, out, False)
    em.replace = True
    _report(sx, em, items, [], True)
    sx.cover('end')


@case('C05', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(100, 600),
      note='n items out of 4 that cannot be hashed (equal ones too) or lists of an opaque value; with and without replacement')
def unhashable(sx):
    items = [[sx.val('in')] if sx.flag('own') else sx.choose('item', LISTS[:4]) for _ in range(sx.P['n'])]
    items.append(sx.choose('also', [1, items[0]]))
    em = sx.fx.emitters.Choice(items, replace=False, rng_seed=1)
    out = []
    for k in (0, 1, 1):
        out = out + em(k)
        _report(sx, em, items, out, False)
    em.replace = True
    _report(sx, em, items, [], True)
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
