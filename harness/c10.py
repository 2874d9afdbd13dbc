"""C10: sequential and iterative emitters cycle in order."""
from sx.case import case


def _factory(sx, items):
    """An iterator factory over items, of a chosen shape."""
    kind = sx.choose('factory', ['list_iter', 'generator', 'map'])
    if kind == 'list_iter':
        return lambda: iter(items)
    if kind == 'map':
        return lambda: map(lambda x: x, items)

    def gen():
        for x in items:
            yield x
    return gen


def _drive(sx, em, items, calls, reset_after):
    n = len(items)
    pos = 0
    for _ in range(calls):
        op = sx.choose('op', ['one', 'many', 'reset'])
        if op == 'reset':
            em.reset()
            pos = 0
            continue
        if reset_after:
            pos = 0
        if op == 'one':
            got = em()
            sx.check(sx.eq(got, items[pos % n]), 'single value is the next in order')
            pos += 1
        else:
            k = sx.int('k', 0)
            got = em(k)
            k = sx.pick(k)
            sx.obs(got)
            sx.check(isinstance(got, list) and len(got) == k, 'exactly k values')
            sx.check(sx.eq(got, [items[(pos + i) % n] for i in range(k)]),
                     'values are the next k in order')
            pos += k
    sx.check(sx.eq(em(), items[0 if reset_after else pos % n]), 'and then goes on')
    sx.cover('end')


@case('C10', quick=dict(maxlen=3, calls=2), thorough=dict(maxlen=4, calls=4),
      bound=5, cover=['end'], seconds=(60, 600),
      note='items 1..maxlen opaque values, `calls` operations, batch size any (exhaustive to 5, one witness beyond)')
def sequential_cycle(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    items = sx.vals('item', n)
    ra = sx.flag('reset_after_call')
    seq = sx.choose('container', [list, tuple])(items)
    em = sx.fx.emitters.Sequential(seq, reset_after_call=ra)
    sx.check(sx.eq(list(em.items), items), 'items are the configured ones')
    _drive(sx, em, items, sx.P['calls'], ra)


@case('C10', quick=dict(maxlen=3, calls=2), thorough=dict(maxlen=4, calls=3),
      bound=4, cover=['end'], seconds=(60, 600),
      note='as sequential_cycle, iterator factories: list iterator, generator, map')
def iterative_cycle(sx):
    n = sx.small('len', 1, sx.P['maxlen'])
    items = sx.vals('item', n)
    ra = sx.flag('reset_after_call')
    em = sx.fx.emitters.Iterative(_factory(sx, items), reset_after_call=ra)
    _drive(sx, em, items, sx.P['calls'], ra)


@case('C10', bound=4, cover=['end', 'refused', 'restarted'], seconds=(60, 300),
      note='1..2 values before and after the change of factory, any position in the cycle, empty factories and sequences')
def refactory(sx):
    old, new = sx.vals('old', 2), sx.vals('new', sx.small('len', 0, 2))
    E = sx.fx.emitters
    seq = sx.flag('sequential')
    ra = sx.flag('reset_after_call')
    em = E.Sequential(old, ra) if seq else E.Iterative(_factory(sx, old), ra)
    used = sx.small('used', 0, 3)
    em(used)
    if sx.flag('same'):
        # the factory it has, once more
        em.iterator_factory = em.iterator_factory
        sx.check(sx.eq(em(2), old), 'emission restarts')
        return
    fac = _factory(sx, new) if not seq else (lambda: iter(new))

    def assign():
        em.iterator_factory = fac
    err = sx.raises(ValueError, assign)
    if not new:
        sx.check(err is not None, 'an empty factory is refused')
        sx.check(sx.eq(em(2), [old[((0 if ra else used) + i) % 2] for i in range(2)]),
                 'and changes nothing')
        sx.cover('refused')
    else:
        sx.check(err is None, 'a non-empty factory is accepted')
        k = sx.small('k', 0, 3)
        sx.check(sx.eq(em(k), [new[i % len(new)] for i in range(k)]), 'emission restarts with the new values')
        sx.check(sx.eq(em(), new[(0 if ra else k) % len(new)]), 'and goes on in order')
        if seq:
            sx.check(sx.eq(list(em.items), new), 'the items follow the factory')
            sx.check(sx.eq(em.num_unique_values, sx.len(set(new))), 'and their count')
        em.reset()
        sx.check(sx.eq(em(2), [new[0], new[1 % len(new)]]), 'reset goes to the first new value')
        sx.cover('restarted')
    sx.cover('end')


@case('C10', bound=4, cover=['end'], seconds=(60, 300), note='empty sequences and factories of every shape')
def empty(sx):
    E = sx.fx.emitters
    kind = sx.choose('kind', ['list', 'tuple', 'str', 'range', 'iter', 'gen', 'map', 'filter'])
    ra = sx.flag('reset_after_call')

    def gen():
        return
        yield
    if kind in ('list', 'tuple', 'str', 'range'):
        bad = {'list': [], 'tuple': (), 'str': '', 'range': range(3, 3)}[kind]
        sx.check(sx.raises(ValueError, E.Sequential, bad, ra) is not None, 'an empty sequence is refused')
    else:
        xs = sx.vals('x', 2)
        bad = {'iter': lambda: iter(()), 'gen': gen, 'map': lambda: map(str, []),
               'filter': lambda: filter(lambda x: False, xs)}[kind]
        sx.check(sx.raises(ValueError, E.Iterative, bad, ra) is not None, 'an empty factory is refused')
        em = E.Iterative(lambda: iter(xs), ra)
        em()

        def assign():
            em.iterator_factory = bad
        sx.check(sx.raises(ValueError, assign) is not None, 'also when assigned later')
        sx.check(sx.eq(em(), xs[0 if ra else 1]), 'and changes nothing')
    sx.cover('end')


@case('C10', quick=dict(calls=2), thorough=dict(calls=4), bound=4, cover=['end'], seconds=(60, 300),
      note='values from an unbounded factory, in order; switching reset_after_call between calls')
def unbounded(sx):
    start = sx.int('start')

    def count():
        i = start
        while True:
            yield i
            i = i + 1
    em = sx.fx.emitters.Iterative(count)
    pos = 0
    for _ in range(sx.P['calls']):
        em.reset_after_call = sx.flag('reset_after_call')
        k = sx.small('k', 0, 3)
        if sx.flag('single'):
            sx.check(sx.eq(em(), start + pos), 'the next value')
            pos += 1
        else:
            sx.check(sx.eq(em(k), [start + pos + i for i in range(k)]), 'the next k values')
            pos += k
        if em.reset_after_call:
            pos = 0
    sx.check(sx.eq(em(2), [start + pos, start + pos + 1]), 'goes on where it was')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
