"""C18: field-based emitters."""
from sx.case import case
from harness.c17 import Source, _value, ALL
from harness.common import probe_emitter

FEW = ['none', 'opaque', 'zero', 'list0', 'list2', 'str']


@case('C18', quick=dict(kinds=ALL), bound=4, cover=['end'], seconds=(200, 1500),
      note='one source given singly or in a list, single- or multi-valued, three latest values of every kind; single and repeated requests')
def one(sx):
    f = Source('f', sx.flag('multi'))
    log = []
    res = sx.val('res')

    def action(v):
        log.append(v)
        return (res, len(log))
    em = sx.fx.emitters.BasedOnFields(f if sx.flag('singly') else [f], action)
    f.ops.clear()
    log.clear()
    for i in range(2):
        f.value, _ = _value(sx, sx.P['kinds'] if i == 0 else ['none', 'opaque'])
        out = em()
        sx.check(len(log) == 1 and log[0] is f.value, 'the latest value, as it is, once')
        sx.check(sx.eq(out, (res, 1)), 'the result of the action')
        log.clear()
    k = sx.small('k', 0, 3)
    out = em(k)
    sx.check(isinstance(out, list) and len(out) == k, 'as many results as requested')
    sx.check(len(log) <= 1 if k == 0 else len(log) == 1, 'the action runs once per emission')
    sx.check(sx.eq(out, [(res, 1)] * k), 'one result repeated')
    em.reset()
    em.seed(3)
    sx.check(not f.ops, 'the source is left alone')
    sx.cover('end')


@case('C18', quick=dict(nsrc=3, kinds=FEW), thorough=dict(nsrc=3, kinds=ALL), bound=4, cover=['end'], seconds=(300, 4000),
      note='0 or 2..nsrc named sources, latest values of every kind, results of every kind')
def many(sx):
    P = sx.P
    n = sx.choose('nsrc', [0] + list(range(2, P['nsrc'] + 1)))
    multi = sx.flag('multi')
    srcs = [Source('fgh'[i], multi and i != 1) for i in range(n)]
    log = []
    res, _ = _value(sx, ['none', 'opaque', 'list2'])

    def action(**kw):
        log.append(kw)
        return res
    em = sx.fx.emitters.BasedOnFields(srcs if sx.flag('list') else tuple(srcs), action)
    for f in srcs:
        f.ops.clear()
    log.clear()
    for i, f in enumerate(srcs):
        f.value, _ = _value(sx, P['kinds'] if i < (1 if n > 2 else 2) else ['none', 'opaque'])
    k = sx.choose('k', [None, 1, 2])
    out = em() if k is None else em(k)
    sx.check(len(log) == 1, 'the action runs once')
    sx.check(sorted(log[0]) == sorted(f.name for f in srcs), 'every source under its name')
    sx.check(all(log[0][f.name] is f.value for f in srcs), 'the latest values as they are')
    if k is None:
        sx.check(out is res, 'the result of the action')
    else:
        sx.check(len(out) == k and all(x is res for x in out), 'the result repeated')
    sx.check(all(not f.ops for f in srcs), 'the sources are left alone')
    sx.cover('end')


class NoSeed(Source):
    seed = None

    def __init__(self, name):
        super().__init__(name)

    def __getattribute__(self, n):
        if n in ('seed', 'rng_seed'):
            raise AttributeError(n)
        return super().__getattribute__(n)


@case('C18', bound=4, cover=['end'], seconds=(150, 1000),
      note='reset, seed, reset_source, seed_source (any seed) on one or two sources, one of them without a seed method')
def operations(sx):
    two = sx.flag('two')
    srcs = [Source('f')] + ([NoSeed('g') if sx.flag('noseed') else Source('g')] if two else [])
    seeds = []
    for f in srcs:
        if not isinstance(f, NoSeed):
            f.seed = lambda s, f=f: (f.ops.append('seed'), seeds.append(s))
    em = sx.fx.emitters.BasedOnFields(srcs if two else srcs[0], (lambda f, g: 1) if two else (lambda f: 1),
                                     rng_seed=sx.choose('own', [None, 5]))
    for f in srcs:
        f.ops.clear()
    op = sx.choose('op', ['emit', 'reset', 'seed', 'reset_source', 'seed_source'])
    s = sx.int('s')
    if op == 'seed_source':
        s = sx.choose('kind', [s, None, 0, '', 'x'])
    if op == 'emit':
        em(), em(2)
    elif op == 'reset':
        em.reset()
    elif op == 'seed':
        em.seed(s)
    elif op == 'reset_source':
        em.reset_source()
    else:
        em.seed_source(s)
    for f in srcs:
        if op == 'reset_source':
            sx.check(f.ops == ['reset'], 'every source is reset')
        elif op == 'seed_source' and not isinstance(f, NoSeed):
            sx.check(f.ops == ['seed'] and sx.truth(sx.eq(seeds.pop(0), s)), 'every source gets the seed')
        else:
            sx.check(not f.ops, 'the sources are left alone')
    sx.cover('end')


@case('C18', quick=dict(calls=2), thorough=dict(calls=3), bound=4, cover=['end'], seconds=(200, 1500),
      note='real fields (gated, repeated), any history of `calls` field calls, resets and seeds between emissions')
def history(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    xs, ys = sx.vals('x', 3), sx.vals('y', 2)
    pf, pg = probe_emitter(sx, xs), probe_emitter(sx, ys)
    f = F('f', pf, gate=E.Static(sx.flag('gate')))
    g = F('g', pg, repeat=E.Static(2))
    two = sx.flag('two')
    log = []
    em = E.BasedOnFields([f, g] if two else f, (lambda g, f: log.append((f, g))) if two else (lambda v: log.append((v,))))
    f.reset(), g.reset()
    last = [None, None]
    for _ in range(sx.P['calls']):
        op = sx.choose('op', ['f', 'g', 'reset', 'seed', 'reset_source', 'seed_source'])
        if op == 'f':
            last[0] = f()
        elif op == 'g':
            last[1] = g()
        elif op == 'reset':
            em.reset()
        elif op == 'seed':
            em.seed(sx.int('s'))
        elif op == 'reset_source':
            em.reset_source()
            last[0] = None
            if two:
                last[1] = None
        else:
            em.seed_source(sx.int('s'))
        given = (pf.given, pg.given)
        log.clear()
        em()
        sx.check(len(log) == 1, 'the action runs once')
        exp = (last[0], last[1]) if two else (last[0],)
        sx.check(sx.eq(log[0], exp), 'the latest field values')
        sx.check((pf.given, pg.given) == given, 'no source draws')
        sx.check(sx.eq([f.previous, g.previous], last), 'and their latest values stay')
    sx.cover('end')


@case('C18', quick=dict(kinds=['opaque', 'list2']), thorough=dict(kinds=ALL), bound=4, cover=['end'], seconds=(200, 1500),
      note='other sources given later (0, 1 or 2 named ones or a single one, before or after emitting), their names or latest '
           'values changed, the action kept or replaced')
def sources(sx):
    SFG, B = sx.fx.emitters.fromfields.SourceFieldGroup, sx.fx.emitters.BasedOnFields
    fs = {n: Source(n, n == 'g') for n in 'fghi'}
    log = []
    shapes = ['f', ['f', 'g'], ['g', 'f', 'h'], []]

    def take(*a, **k):
        log.append((a, k))
        return ('res', len(log))
    old, new = sx.choose('old', shapes), sx.choose('new', ['h', ['g', 'h'], ['i', 'f'], ['i'], []])

    def pick(names):
        return fs[names] if isinstance(names, str) else [fs[n] for n in names]
    em = B(pick(old), take)
    fs['f'].value = sx.val('v')
    if sx.flag('used'):
        em()
        em(2)
    how = sx.choose('how', ['method', 'direct', 'action'])
    if how == 'direct':
        em.source = SFG(pick(new))
    else:
        em.set_source_fields(pick(new))
    if how == 'action':
        em.set_action_function(lambda *a, **k: take(*a, **k))
    for n, f in fs.items():
        f.value, _ = _value(sx, sx.P['kinds'] if n == new[:1] or n in new[:1] else ['none'] if n == 'i' else ['opaque'])
        f.ops.clear()
    log.clear()
    renamed = bool(new) and not isinstance(new, str) and sx.flag('renamed')
    if renamed:
        fs[new[0]].name = 'z'
    out = em(2) if sx.flag('many') else [em()]
    sx.check(all(x == ('res', 1) for x in out) and len(log) == 1, 'the action runs once')
    a, k = log[0]
    if isinstance(new, str) or len(new) == 1:
        sx.check(not k and len(a) == 1 and a[0] is fs[new[0]].value, 'the latest value of the source given last')
    else:
        sx.check(not a and list(sorted(k)) == sorted(fs[n].name for n in new), 'every source given last under its name')
        sx.check(all(k[fs[n].name] is fs[n].value for n in new), 'with its latest value')
    sx.check(all(not f.ops for f in fs.values()), 'the sources are left alone')
    s = sx.int('s')
    seeds = []
    for n, f in fs.items():
        f.seed = lambda v, f=f: (f.ops.append('seed'), seeds.append(v))
    em.seed_source(s)
    em.reset_source()
    for n, f in fs.items():
        sx.check(f.ops == (['seed', 'reset'] if n in new else []), 'the source operations reach the sources given last')
    sx.check(sx.eq(seeds, [s] * len(new)), 'with the seed')
    sx.cover('end')


@case('C18', quick=dict(pre=2), thorough=dict(pre=3), bound=4, cover=['end'], seconds=(100, 800),
      note='building an emitter, or giving it a new action (with or without rng, directly or by the method), after 0..pre calls '
           'of its one or two real source fields (single- or multi-valued, fixed, random or not repeating values)')
def building(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    xs = list('abc')
    kind = sx.choose('source', ['probe', 'sequential', 'unique'])
    s = 5

    def make():
        src = (probe_emitter(sx, xs) if kind == 'probe' else E.Sequential(xs) if kind == 'sequential' else
               E.Choice(xs[:2], replace=False, rng_seed=s))
        return F('f', src, repeat=E.Static(1) if multi else None, rng_seed=s), F('g', E.Sequential(xs))
    multi = kind == 'probe' and sx.flag('multi')
    (f, g), (f2, g2) = make(), make()
    two, rng = kind != 'unique' and sx.flag('two'), sx.flag('rng')
    fn = {(0, 0): lambda v: 0, (0, 1): lambda v, rng: 0, (1, 0): lambda f, g: 0, (1, 1): lambda g, rng, f: 0}[two, rng]

    def use(k):
        for _ in range(k):
            f(), f2(), g(), g2()
    pre = sx.small('pre', 0, 1 if kind == 'unique' else sx.P['pre'])
    use(pre)
    em = E.BasedOnFields([f, g] if two else f, fn, rng_seed=sx.choose('emseed', [None, 5]))
    sx.check(sx.eq([f.previous, g.previous], [f2.previous, g2.previous]), 'the latest values stay')
    again = sx.choose('again', ['no', 'method', 'assign'])
    if again != 'no':
        if pre == 0:
            use(1)
        if again == 'method':
            em.set_action_function(fn)
        else:
            em.action = em.action
        sx.check(sx.eq([f.previous, g.previous], [f2.previous, g2.previous]), 'the latest values stay')
    if kind == 'probe':
        sx.check(f.emitter.given == f2.emitter.given and f.emitter.resets == f2.emitter.resets, 'nothing drawn or reset')
    sx.check(sx.eq([f(), g()], [f2(), g2()]), 'no source value is used up')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
