"""C02: choice without replacement."""
from sx.case import case
from harness.common import LISTS, is_permutation, is_submultiset, weights_for


def make(sx, items, ws, seed, **k):
    return sx.fx.emitters.Choice(items, ws, replace=False, rng_seed=seed, **k)


def request(em, k):
    """k None: one value. Returns (values, error)."""
    try:
        return ([em()] if k is None else em(k)), None
    except ValueError as e:
        return None, e


def _history(sx, em, items, calls, resets=True):
    """Runs `calls` operations; returns the values out since the last
    reshuffle and the successful operations."""
    n = len(items)
    out, log = [], []
    for _ in range(calls):
        op = sx.choose('op', ['one', 'many', 'reset', 'seed'] if resets else ['one', 'many'])
        if resets and sx.P.get('touch') and sx.flag('touch'):
            # the settings it has already
            em.replace = False
            em.replace_only_after_call = False
        if op == 'reset':
            em.reset()
            out, log = [], log + [('reset', None)]
            continue
        if op == 'seed':
            s = sx.int('reseed')
            em.seed(s)
            out, log = [], log + [('seed', s)]
            continue
        k = None if op == 'one' else sx.int('k', 0)
        got, err = request(em, k)
        k1 = 1 if k is None else k
        left = n - len(out)
        if err is not None:
            sx.check(k1 > left, 'a request that could be met is met')
            sx.cover('refused')
            continue
        sx.check(k1 <= left, 'a request for more than remain raises ValueError')
        if k is not None:
            k = sx.pick(k)
        sx.check(isinstance(got, list), 'a list')
        sx.check(len(got) == (1 if k is None else k), 'as many as requested')
        sx.obs(got)
        out = out + got
        log.append(('emit', k))
        sx.check(is_submultiset(sx, out, items), 'no item handed out twice')
    return out, log


def _drain(sx, em, items, out):
    rest = em(len(items) - len(out))
    sx.check(is_permutation(sx, out + rest, items),
             'draining gives every item exactly once')
    got, err = request(em, None)
    sx.check(err is not None, 'a drained emitter refuses a single value')
    got, err = request(em, sx.int('extra', 1))
    sx.check(err is not None, 'a drained emitter refuses more values')
    sx.check(em(0) == [], 'zero values can still be requested')
    return rest


@case('C02', quick=dict(maxlen=3, calls=2, resetlen=2, touch=True),
      thorough=dict(maxlen=4, calls=3, resetlen=3, touch=True), bound=4,
      cover=['refused', 'end'], seconds=(600, 6000),
      note='1..maxlen opaque different items without weights, list or tuple, '
           '`calls` operations of one/many (and reset/seed up to resetlen items), request size unbounded')
def unweighted(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    sx.assume(sx.distinct(items))
    seed = sx.int('seed')
    em = make(sx, tuple(items) if len(items) == 2 else items, None, seed)
    out, log = _history(sx, em, items, sx.P['calls'],
                        resets=len(items) <= sx.P['resetlen'])
    rest = _drain(sx, em, items, out)
    # the same history without the refused requests
    twin = make(sx, items, None, seed)
    for op, arg in log:
        if op == 'reset':
            twin.reset()
        elif op == 'seed':
            twin.seed(arg)
        else:
            request(twin, arg)
    sx.check(sx.eq(twin(len(rest)), rest), 'refused requests change nothing')
    sx.cover('end')


@case('C02', quick=dict(maxlen=3, calls=1), thorough=dict(maxlen=3, calls=3), bound=4,
      cover=['end'], seconds=(600, 6000),
      note='as unweighted with any non-negative weights (positive sum), one/many operations')
def weighted(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    ws = weights_for(sx, 'w', len(items))
    cum = len(items) == 2 and sx.flag('cumulative')
    seed = sx.int('seed')

    def build():
        if not cum:
            return make(sx, items, ws, seed)
        acc, t = [], 0
        for w in ws:
            t = t + w
            acc.append(t)
        return make(sx, items, None, seed, cum_weights=acc)
    em = build()
    out, log = _history(sx, em, items, sx.P['calls'], resets=False)
    rest = _drain(sx, em, items, out)
    twin = build()
    for op, arg in log:
        request(twin, arg)
    sx.check(sx.eq(twin(len(rest)), rest), 'refused requests change nothing')
    sx.cover('end')


@case('C02', quick=dict(maxlen=3, calls=1), thorough=dict(maxlen=3, calls=2), bound=4,
      cover=['refused', 'end'], seconds=(300, 3000),
      note='1..maxlen opaque items, possibly equal, no weights')
def duplicates(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    em = make(sx, items, None, sx.int('seed'))
    out, log = _history(sx, em, items, sx.P['calls'], resets=False)
    _drain(sx, em, items, out)
    sx.cover('end')


@case('C02', quick=dict(sizes=(2, 3)), thorough=dict(sizes=(2, 4)), bound=6, cover=['end'],
      seconds=(60, 300), note='range and string item lists, a refused request between two partial ones')
def containers(sx):
    n = sx.small('n', *sx.P['sizes'])
    items = sx.choose('items', [range(3, 3 + n), 'abcdef'[:n]])
    seed = sx.int('seed')
    em, twin = make(sx, items, None, seed), make(sx, items, None, seed)
    # the order is forced to a few permutations only: the first item drawn
    k1 = sx.small('k1', 0, n)
    first = em(k1)
    sx.check(first == twin(k1), 'equal seeds')
    got, err = request(em, n - k1 + sx.int('over', 1))
    sx.check(err is not None, 'over-request refused')
    rest = em(n - k1)
    sx.check(sorted(first + rest) == sorted(items), 'every item once')
    sx.check([twin() for _ in range(n - k1)] == rest, 'what comes next is unchanged')
    sx.cover('end')


@case('C02', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(100, 600),
      note='n items out of 4 that cannot be hashed (equal ones too) or lists of an opaque value; any over-request, '
           'before and after one value')
def unhashable(sx):
    items = [[sx.val('in')] if sx.flag('own') else sx.choose('item', LISTS[:4]) for _ in range(sx.P['n'])]
    seed = sx.int('seed')
    em, twin = make(sx, items, None, seed), make(sx, items, None, seed)
    n = len(items)
    out = [em()] if sx.flag('one') else []
    for _ in out:
        twin()
    got, err = request(em, n - len(out) + sx.int('over', 1))
    sx.check(err is not None, 'over-request refused')
    rest = em(n - len(out))
    sx.check(len(rest) == n - len(out) and sx.truth(is_permutation(sx, out + rest, items)), 'every item once')
    sx.check(sx.eq(rest, twin(n - len(out))), 'what comes next is unchanged')
    got, err = request(em, None)
    sx.check(err is not None, 'a drained emitter refuses a single value')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
