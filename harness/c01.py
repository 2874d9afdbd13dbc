"""C01: call protocol of every emitter."""
from sx.case import case
from harness.common import probe_emitter, rng_emitter, weights_for


def _protocol(sx, make, snapshot=None, may_run_out=None, third=False):
    """make() builds an emitter; equal random draws for each instance."""
    a, b = make(), make()
    used = 0
    if not sx.flag('fresh'):
        used = 1
        single = a()
        sx.check(not isinstance(single, list), 'a call without count gives a value')
        one = b(1)
        sx.check(isinstance(one, list) and len(one) == 1, 'count 1 gives a one-element list')
        sx.check(sx.eq(one[0], single), 'count 1 gives the value a plain call would')
        sx.obs(one)
    # from here a and b are in the same state
    n = sx.int('n', 0)
    err = None
    try:
        got = a(n)
    except ValueError as e:
        err = e
    n = sx.pick(n)
    if may_run_out is not None and n > may_run_out(used):
        sx.check(err is not None, 'a request that cannot be met raises')
        return
    if err is not None:
        raise err
    sx.check(isinstance(got, list), 'a count gives a list')
    sx.check(len(got) == n, 'exactly n values')
    same = b(n)
    sx.check(sx.eq(got, same), 'the same call on an equal emitter gives the same')
    # a returned list belongs to the caller
    before = list(got)
    got.append('junk')
    got.reverse()
    again_a = again_b = None
    ea = eb = None
    try:
        again_a = a(n)
    except ValueError as e:
        ea = e
    try:
        again_b = b(n)
    except ValueError as e:
        eb = e
    sx.check((ea is None) == (eb is None), 'mutating a result does not change whether later calls fail')
    sx.check(sx.eq(same, before), 'results are separate lists')
    if ea is None:
        sx.check(len(again_a) == n, 'still exactly n values')
        sx.check(sx.eq(again_a, again_b), 'mutating a result does not change later output')
        if third and n:
            # changed in place, length kept
            again_a[-1] = 'junk'
            sx.check(sx.eq(a(n), b(n)), 'nor does changing an element')
    for attr in ('num_unique_values', 'num_unique_items', 'emits_unique_values', 'items'):
        if hasattr(a, attr):
            sx.check(sx.eq(getattr(a, attr), getattr(b, attr)), f'nor what it reports ({attr})')
    if snapshot is not None:
        snapshot()
    sx.cover('end')


def _keep(sx, live, label):
    """Returns a checker that the given list/dict still has its contents."""
    copy = dict(live) if isinstance(live, dict) else list(live)

    def chk():
        sx.check(sx.eq(live, copy), f'{label} unchanged')
    return chk


@case('C01', bound=5, cover=['end'], seconds=(40, 200), note='value opaque, n exhaustive to 5')
def static(sx):
    v = sx.val('v')
    _protocol(sx, lambda: sx.fx.emitters.Static(v), third=True)


@case('C01', quick=dict(maxlen=3), thorough=dict(maxlen=5), bound=5, cover=['end'],
      seconds=(60, 300), note='1..maxlen opaque items, all factories, n exhaustive to 5')
def fixed_order(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    ra = sx.flag('reset_after_call')
    em = sx.fx.emitters
    keep = _keep(sx, items, 'items')
    if sx.flag('sequential'):
        _protocol(sx, lambda: em.Sequential(items, ra), keep, third=True)
    else:
        _protocol(sx, lambda: em.Iterative(lambda: iter(items), ra), keep, third=True)


@case('C01', quick=dict(maxlen=2), thorough=dict(maxlen=3), bound=3, cover=['end'],
      seconds=(100, 600), note='1..maxlen opaque items, weights None or positive reals, all modes, n exhaustive to 3')
def choice(sx):
    items = sx.vals('item', sx.small('len', 1, sx.P['maxlen']))
    mode = sx.choose('mode', ['replace', 'after_call', 'never'])
    ws = weights_for(sx, 'w', len(items)) if sx.flag('weighted') else None
    seed = sx.int('seed')
    keep = _keep(sx, items, 'items')
    keepw = _keep(sx, ws, 'weights') if ws else (lambda: None)

    def make():
        return sx.fx.emitters.Choice(
            items, ws, replace=mode == 'replace',
            replace_only_after_call=mode == 'after_call', rng_seed=seed)

    def can(used):
        if mode == 'never':
            return len(items) - used
        if mode == 'after_call':
            return len(items) if len(items) > 1 else 1
        return 10 ** 9
    _protocol(sx, make, lambda: (keep(), keepw()),
              None if mode == 'replace' else can)


@case('C01', bound=3, cover=['end'], seconds=(60, 300),
      note='unweighted choice over a symbolic range of any length; n exhaustive to 3')
def choice_range(sx):
    size = sx.int('size', 2)
    seed = sx.int('seed')
    items = sx.range(size)
    _protocol(sx, lambda: sx.fx.emitters.Choice(items, rng_seed=seed))


@case('C01', quick=dict(maxlen=2, hi=2), thorough=dict(maxlen=3, hi=3), bound=3, cover=['end'],
      seconds=(60, 400), note='cyclic lengths 0..hi, cyclic characters, n exhaustive to 3')
def word(sx):
    ls = [sx.int('length', 0, sx.P['hi']) for _ in range(sx.small('nl', 1, sx.P['maxlen']))]
    cs = [sx.char('c') for _ in range(2)]
    E = sx.fx.emitters
    k1, k2 = _keep(sx, ls, 'lengths'), _keep(sx, cs, 'characters')
    _protocol(sx, lambda: E.Word(E.Sequential(ls), E.Sequential(cs)), lambda: (k1(), k2()))


@case('C01', quick=dict(maxlen=2, hi=2), thorough=dict(maxlen=2, hi=3), bound=3, cover=['end'],
      seconds=(100, 500), note='cyclic word counts 0..hi, cyclic words and separators, n exhaustive to 3')
def text(sx):
    ls = [sx.int('nwords', 0, sx.P['hi']) for _ in range(sx.small('nl', 1, sx.P['maxlen']))]
    ws = [sx.string('w', 2) for _ in range(2)]
    E = sx.fx.emitters
    seps = sx.choose('sep', [None, ['-', '+']])
    _protocol(sx, lambda: E.Text(E.Sequential(ls), E.Sequential(ws),
                                 seps and E.Sequential(seps)))


@case('C01', quick=dict(maxlen=2), thorough=dict(maxlen=4), bound=4, cover=['end'],
      seconds=(150, 600), note='0..2 sources, 1..maxlen opaque values each, n exhaustive to 4')
def wrappers(sx):
    E = sx.fx.emitters
    xs = sx.vals('x', sx.small('len', 1, sx.P['maxlen']))
    ys = sx.vals('y', 2)
    kind = sx.choose('kind', ['one', 'many1', 'many2', 'rng', 'many0'])
    seed = sx.int('seed')

    def make():
        if kind == 'one':
            return E.WrapOne(E.Sequential(xs), lambda v: ('w', v))
        if kind == 'many1':
            return E.WrapMany({'a': E.Sequential(xs)}, lambda a: ('w', a))
        if kind == 'many0':
            return E.WrapMany({}, lambda: 'w')
        if kind == 'rng':
            return E.WrapOne(E.Sequential(xs), lambda v, rng: (rng.random(), v), rng_seed=seed)
        return E.WrapMany({'a': E.Sequential(xs), 'b': E.Sequential(ys)},
                          lambda a, b: ('w', a, b))
    _protocol(sx, make, third=True)


@case('C01', bound=5, cover=['end'], seconds=(60, 300),
      note='one or two single-valued or list-valued sources with opaque values, n exhaustive to 5')
def field_based(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    v, w = sx.val('v'), sx.val('w')
    src = sx.choose('src', ['single', 'list1', 'list2', 'multi'])
    what = sx.choose('what', ['copy', 'based'])

    def make():
        f = F('f', E.Static(v), repeat=E.Static(2) if src == 'multi' else None)
        g = F('g', E.Static(w))
        f(), g()
        s = {'single': f, 'multi': f, 'list1': [f], 'list2': [f, g]}[src]
        if what == 'copy':
            em = E.CopyFields(s)
        else:
            em = E.BasedOnFields(s, (lambda f, g: ('b', f, g)) if src == 'list2'
                                 else (lambda f: ('b', f)))
        f(), g()
        return em
    if what == 'copy' and src != 'single':
        # the value itself is a list here
        a = make()
        v_, w_ = [] if sx.none(v) else [v], [] if sx.none(w) else [w]
        exp = {'list1': v_, 'list2': v_ + w_, 'multi': [v, v]}[src] or None
        first = a()
        sx.check(sx.eq(first, exp), 'the value of the sources')
        kept = [f.previous for f in a.source]
        if exp is not None:
            first.append('junk')
            first.reverse()
            sx.check(sx.eq(a(), exp), 'mutating one value does not change later ones')
            sx.check(sx.eq([f.previous for f in a.source], kept) and 'junk' not in (kept[0] if src == 'multi' else ()),
                     'nor the sources')
        n = sx.int('n', 0)
        got = a(n)
        n = sx.pick(n)
        sx.check(isinstance(got, list) and len(got) == n, 'exactly n values')
        sx.check(sx.eq(got, [exp] * n), 'the value n times')
        got.append('junk')
        sx.check(sx.eq(a(n), [exp] * n), 'mutating a result does not change later output')
        sx.cover('end')
    else:
        _protocol(sx, make, third=True)


@case('C01', bound=4, cover=['end'], seconds=(40, 100),
      note='user-defined emitter on the base class, n exhaustive to 4')
def user_defined(sx):
    xs = sx.vals('x', 3)
    _protocol(sx, lambda: probe_emitter(sx, xs))


@case('C01', bound=4, cover=['end'], seconds=(100, 300),
      note='sources that hand out lists of their own: composites leave them as they were; n exhaustive to 4')
def own_lists(sx):
    base = sx.fx.emitter.Emitter
    kind = sx.choose('kind', ['one', 'many', 'word', 'text', 'field'])
    vals = {'word': ['a', 'b', 'c', 'd'], 'text': ['a', 'b', 'c', 'd']}.get(kind) or sx.vals('x', 4)
    nums = [1, 1, 1, 1]

    class Own(base):
        """Hands out the very list it holds when all of it is asked for."""
        def __init__(self, xs):
            self.xs = xs

        def emit(self):
            return self.xs[0]

        def emit_many(self, number):
            return self.xs if number == len(self.xs) else self.xs[:number]
    E = sx.fx.emitters
    size = sx.small('size', 1, 4)
    xs, ns, seps = vals[:size], nums[:size], ['-'] * size
    src, cnt, sep = Own(xs), Own(ns), Own(seps)
    a = {'one': lambda: E.WrapOne(src, lambda v: ('w', v)),
         'many': lambda: E.WrapMany({'a': src, 'b': cnt}, lambda a, b: ('w', a)),
         'word': lambda: E.Word(cnt, src),
         'text': lambda: E.Text(cnt, src, sep),
         'field': lambda: sx.fx.profile.Field('f', src, repeat=E.Static(size))}[kind]()
    exp = {'one': lambda: [('w', v) for v in vals[:size]], 'many': lambda: [('w', v) for v in vals[:size]]}.get(
        kind, lambda: list(vals[:size]))()
    for _ in range(2):
        got = a() if kind == 'field' else a(size)
        sx.check(sx.eq(got, exp), 'the values of the source')
        if kind != 'field':
            got.append('junk')
            got.reverse()
            sx.check(sx.eq(xs, vals[:size]) and ns == nums[:size] and seps == ['-'] * size, 'the lists of the sources stay')
    sx.check(sx.eq(xs, vals[:size]) and ns == nums[:size] and seps == ['-'] * size, 'the lists of the sources stay')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
