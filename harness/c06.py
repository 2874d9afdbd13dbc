"""C06: reconfiguring choice emitters."""
from sx.case import case
from harness.common import is_permutation, weights_for
from harness.c02 import request


def _acc(ws):
    out, t = [], 0
    for w in ws:
        t = t + w
        out.append(t)
    return out


def _consistent(sx, em, items, expect_w):
    """The weight vectors fit each other and the expected weights."""
    w, c = em.weights, em.cum_weights
    if expect_w is None:
        sx.check(w is None and c is None, 'no weights set')
        return
    sx.check(w is not None and c is not None, 'both weight vectors set')
    sx.check(len(w) == len(items) and len(c) == len(items), 'one weight per item')
    sx.check(sx.and_(*[sx.same(x, y) for x, y in zip(w, expect_w)]),
             'the weights last set')
    sx.check(sx.and_(*[sx.same(x, y) for x, y in zip(c, _acc(expect_w))]),
             'cumulative weights are the running sum')


class Model:
    """The documented flag behaviour."""

    def __init__(self, replace, after):
        self.replace, self.after = replace or after, after

    def set_replace(self, v):
        started = False
        if v != self.replace:
            self.replace = v
            if not v:
                self.after = False
                started = True
        return started

    def set_after(self, v):
        self.after = v
        if v:
            self.replace = True
        return False


def _flags(sx, em, m):
    sx.check(bool(em.replace) == m.replace, 'replace flag')
    sx.check(bool(em.replace_only_after_call) == m.after, 'replace-after-call flag')
    sx.check(not (em.replace_only_after_call and not em.replace), 'flags do not contradict')


def _like_new(sx, em, items, m, ws, n):
    """em, reseeded, answers like an emitter built with its configuration."""
    s = sx.int('s')
    em.seed(s)
    new = sx.fx.emitters.Choice(items, ws, replace=m.replace,
                                replace_only_after_call=m.after, rng_seed=s)
    if n == 1 or sx.flag('one'):
        sx.check(sx.eq([em()], [new()]), 'single values as a new emitter')
    else:
        sx.check(sx.eq(em(n), new(n)), 'several values as a new emitter')
    if m.replace and not m.after:
        k = None
        if ws is not None and n > 1:
            return
    else:
        k = n + 1
    x, ex = request(em, k)
    y, ey = request(new, k)
    sx.check((ex is None) == (ey is None), 'refuses what a new emitter refuses')
    if ex is None:
        sx.check(sx.eq(x, y), 'more values as a new emitter')
    sx.check(sx.eq(em.num_unique_items, new.num_unique_items), 'counts as a new emitter')


OPS = ['replace=T', 'replace=F', 'after=T', 'after=F']


@case('C06', quick=dict(maxlen=2, calls=2), thorough=dict(maxlen=3, calls=4), bound=4, cover=['end'],
      seconds=(600, 4000),
      note='`calls` assignments of the two flags in any order after any constructor flags, '
           'then compared with a newly built emitter')
def flags(sx):
    n = sx.P['maxlen']
    items = sx.vals('item', n)
    sx.assume(sx.distinct(items))
    r, a = sx.flag('replace'), sx.flag('after')
    m = Model(r, a)
    em = sx.fx.emitters.Choice(items, replace=r, replace_only_after_call=a, rng_seed=sx.int('seed'))
    _flags(sx, em, m)
    em.emit()
    for _ in range(sx.P['calls']):
        op = sx.choose('op', OPS)
        if op.startswith('replace'):
            em.replace = op.endswith('T')
            started = m.set_replace(op.endswith('T'))
        else:
            em.replace_only_after_call = op.endswith('T')
            started = m.set_after(op.endswith('T'))
        _flags(sx, em, m)
        if started:
            sx.check(sx.eq(em.num_unique_items, n), 'all items are there again')
    _like_new(sx, em, items, m, None, n)
    sx.cover('end')


def _set(sx, em, kind, ws):
    if kind == 'weights':
        em.weights = ws
    else:
        em.cum_weights = None if ws is None else _acc(ws)


@case('C06', quick=dict(n=2, calls=1), thorough=dict(n=3, calls=2), bound=4, cover=['end'], seconds=(200, 1500),
      note='flag assignments after 0..n of n values were handed out, by any configuration')
def used(sx):
    n = sx.P['n']
    items = sx.vals('item', n)
    sx.assume(sx.distinct(items))
    m = Model(sx.flag('replace'), sx.flag('after'))
    em = sx.fx.emitters.Choice(items, replace=m.replace, replace_only_after_call=m.after, rng_seed=sx.int('seed'))
    k = sx.small('used', 0, n)
    out = em(k)
    fresh = False
    for _ in range(sx.P['calls']):
        op = sx.choose('op', OPS)
        if op.startswith('replace'):
            em.replace = op.endswith('T')
            fresh = m.set_replace(op.endswith('T')) or fresh
        else:
            em.replace_only_after_call = op.endswith('T')
            m.set_after(op.endswith('T'))
        _flags(sx, em, m)
    if m.replace:
        sx.check(len(em(n)) == n, 'all items can be had')
        got, err = request(em, n + 1)
        sx.check((err is not None) == m.after, 'more only if replaced within calls')
    else:
        k = 0 if fresh else k
        sx.check(sx.eq(em.num_unique_items, n - k), 'the remaining items')
        got = em(n - k)
        sx.check(is_permutation(sx, got if fresh else out + got, items), 'each once')
        sx.check(request(em, None)[1] is not None, 'and no more')
    sx.cover('end')


@case('C06', quick=dict(maxlen=2, calls=1, starts=['none', 'cum']),
      thorough=dict(maxlen=2, calls=2, starts=['none', 'weights', 'cum']), bound=4, cover=['end'],
      seconds=(600, 12000),
      note='after any constructor flags and weights, `calls` assignments of weights or '
           'cumulative weights (any positive reals, or none), then compared with a new emitter')
def weights(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    items = sx.vals('item', n)
    sx.assume(sx.distinct(items))
    mode = sx.choose('mode', ['never', 'always', 'after'])
    m = Model(mode == 'always', mode == 'after')
    E = sx.fx.emitters
    start = sx.choose('start', sx.P['starts'])
    w0 = None if start == 'none' else weights_for(sx, 'w0', n, zero=False)
    seed = sx.int('seed')
    em = E.Choice(items, w0 if start == 'weights' else None, replace=m.replace,
                  replace_only_after_call=m.after, rng_seed=seed,
                  cum_weights=_acc(w0) if start == 'cum' else None)
    _consistent(sx, em, items, w0)
    cur = w0
    for _ in range(sx.P['calls']):
        if mode == 'never':
            em.emit()
        kind = sx.choose('kind', ['weights', 'cum'])
        cur = weights_for(sx, 'w', n, zero=False) if sx.flag('some') else None
        _set(sx, em, kind, cur)
        _consistent(sx, em, items, cur)
        _flags(sx, em, m)
        if mode == 'never':
            sx.check(sx.eq(em.num_unique_items, n), 'all items are there again')
    _like_new(sx, em, items, m, cur, n)
    sx.cover('end')


@case('C06', bound=4, cover=['end', 'zero'], seconds=(200, 800),
      note='two items, zero weights allowed, never/always/after-call replacement')
def zero_weights(sx):
    items = sx.vals('item', 2)
    sx.assume(sx.distinct(items))
    mode = sx.choose('mode', ['never', 'always', 'after'])
    m = Model(mode == 'always', mode == 'after')
    em = sx.fx.emitters.Choice(items, replace=m.replace, replace_only_after_call=m.after,
                               rng_seed=sx.int('seed'))
    ws = weights_for(sx, 'w', 2)
    _set(sx, em, sx.choose('kind', ['weights', 'cum']), ws)
    _consistent(sx, em, items, ws)
    if sx.truth(sx.eq(ws[0], 0)):
        sx.cover('zero')
        sx.check(sx.eq(em(), items[1]), 'an item of weight zero does not come first')
    _like_new(sx, em, items, m, ws, 2)
    sx.cover('end')


@case('C06', quick=dict(maxlen=2), thorough=dict(maxlen=3), bound=5, cover=['end'], seconds=(300, 2000),
      note='a weight vector of any other length changes nothing, in any mode')
def bad_length(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    items = sx.vals('item', n)
    sx.assume(sx.distinct(items))
    mode = sx.choose('mode', ['never', 'always', 'after'])
    start = sx.choose('start', ['none', 'weights'])
    w0 = None if start == 'none' else [2.0, 1.0, 4.0][:n]
    seed = sx.int('seed')

    def make():
        e = sx.fx.emitters.Choice(items, w0, replace=mode == 'always',
                                  replace_only_after_call=mode == 'after', rng_seed=seed)
        e.emit()
        return e
    em, twin = make(), make()
    bad = sx.small('bad', 0, n + 2)
    if bad == n:
        bad = n + 3
    kind = sx.choose('kind', ['weights', 'cum'])
    err = sx.raises(ValueError, _set, sx, em, kind, [1.0] * bad)
    sx.check(err is not None, 'a weight vector of the wrong length raises ValueError')
    _consistent(sx, em, items, w0)
    sx.check(em.replace == twin.replace, 'replace flag unchanged')
    sx.check(em.replace_only_after_call == twin.replace_only_after_call, 'after-call flag unchanged')
    sx.check(sx.eq(em.num_unique_items, twin.num_unique_items), 'remaining items unchanged')
    k = twin.num_unique_items if mode == 'never' else n
    sx.check(sx.eq(em(k), twin(k)), 'later output unchanged')
    c = sx.fx.emitters.Choice
    if bad:
        args = dict(weights=[1.0] * bad) if kind == 'weights' else dict(cum_weights=_acc([1.0] * bad))
        sx.check(sx.raises(ValueError, c, items, **args) is not None,
                 'the constructor refuses them too')
    sx.cover('end')


@case('C06', quick=dict(maxlen=2), thorough=dict(maxlen=3), bound=4, cover=['end'], seconds=(200, 1500),
      note='operations that restart a non-replacing emitter after any number of values')
def restarts(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    items = sx.vals('item', n)
    if n > 2:
        sx.assume(sx.distinct(items))
    E = sx.fx.emitters
    ws = [1.0, 2.0, 3.0][:n] if sx.flag('weighted') else None
    em = E.Choice(items, ws, replace=False, rng_seed=sx.int('seed'))
    used = sx.small('used', 0, n)
    out = em(used)
    op = sx.choose('op', ['weights', 'cum', 'none', 'off', 'seed', 'reset', 'nothing', 'same'])
    if op == 'weights':
        em.weights = [3.0, 1.0, 1.0][:n]
    elif op == 'cum':
        em.cum_weights = [1.0, 3.0, 4.0][:n]
    elif op == 'none':
        em.weights = None
    elif op == 'off':
        em.replace = True
        em.replace = False
    elif op == 'seed':
        em.seed(sx.int('s2'))
    elif op == 'reset':
        em.reset()
    elif op == 'same':
        em.replace = False
        em.replace_only_after_call = False
        em.noun = 'thing'
    if op in ('nothing', 'same'):
        sx.check(is_permutation(sx, out + em(n - used), items), 'goes on where it was')
    else:
        sx.check(is_permutation(sx, em(n), items), 'starts over with all items')
    got, err = request(em, None)
    sx.check(err is not None, 'and is then empty')
    sx.cover('end')


@case('C06', bound=4, cover=['end'], seconds=(60, 100),
      note='constructor arguments: both weight kinds, empty and non-sequence items')
def constructor(sx):
    C = sx.fx.emitters.Choice
    what = sx.choose('what', ['both', 'empty', 'nonseq', 'ok'])
    n = sx.small('len', 1, 3)
    ws = [sx.real('w', 0.5, 8) for _ in range(n)]
    items = sx.vals('item', n)
    if what == 'both':
        m = sx.small('other', 1, 3)
        e = sx.raises(TypeError, C, items, weights=ws, cum_weights=_acc([1.0] * m))
        sx.check(e is not None, 'both kinds of weights raise TypeError')
    elif what == 'empty':
        bad = sx.choose('bad', [[], (), '', range(0), range(5, 5)])
        sx.check(sx.raises(ValueError, C, bad) is not None, 'empty items raise ValueError')
        sx.check(sx.raises(ValueError, C, bad, replace=False) is not None, 'empty items raise ValueError')
    elif what == 'nonseq':
        bad = sx.choose('bad', [None, 5, iter('abc'), {'a': 1}, {1, 2}, (x for x in 'ab'), 0])
        sx.check(sx.raises(ValueError, C, bad) is not None, 'non-sequences raise ValueError')
    else:
        good = sx.choose('good', [items, tuple(items), 'abc'[:n], range(1, n + 1), range(n - 1, -1, -1), b'xyz'[:n]])
        em = C(good, rng_seed=1)
        sx.check(sx.eq(list(em.items), list(good)), 'the items as given')
        _consistent(sx, em, good, None)
        sx.check(em.replace and not em.replace_only_after_call, 'default flags')
        r, a = sx.flag('replace'), sx.flag('after')
        _flags(sx, C(good, replace=r, replace_only_after_call=a), Model(r, a))
        em = C(good, ws)
        _consistent(sx, em, good, ws)
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
