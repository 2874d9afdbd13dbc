"""C13: wrapper emitters."""
from sx.case import case
from harness.common import LISTS, POOL, probe_emitter, rng_emitter


def _call(sx, em, P):
    """One call on em; returns (outputs, how many)."""
    if sx.flag('single'):
        return [em()], 1
    k = sx.small('k', 0, P['many'])
    got = em(k)
    sx.check(isinstance(got, list) and len(got) == k, 'as many outputs as requested')
    return got, k


Q = dict(vals=3, calls=2, many=3)
D = dict(vals=4, calls=3, many=4)


@case('C13', quick=Q, thorough=D, bound=5, cover=['end'], seconds=(100, 1000),
      note='1..vals cyclic opaque source values, `calls` calls for one or 0..many outputs, functions with and without rng')
def one(sx):
    E, P = sx.fx.emitters, sx.P
    xs = sx.vals('x', sx.small('len', 1, P['vals']))
    if len(xs) == 3 and sx.flag('again'):
        xs[1] = xs[0]
    src = probe_emitter(sx, xs)
    log = []

    def f(v):
        log.append(v)
        return ('f', v, len(log))

    def g(value, rng):
        return f(value)
    em = E.WrapOne(src, sx.choose('fn', [f, g]))
    sx.check(src.given == 0, 'building leaves the source at its start')
    log.clear()
    pos = 0
    for _ in range(P['calls']):
        out, k = _call(sx, em, P)
        exp = [('f', xs[(pos + i) % len(xs)], pos + i + 1) for i in range(k)]
        sx.check(sx.eq(out, exp), 'the function applied to the next values')
        pos += k
        sx.check(len(log) == pos, 'one function call per output')
        sx.check(sx.eq(log, [xs[i % len(xs)] for i in range(pos)]), 'in order')
        sx.check(src.given == pos, 'one source value per output')
    sx.cover('end')


NAMES = [[], ['a'], ['a', 'b'], ['b', 'a'], ['x', 'y', 'z']]


@case('C13', quick=Q, thorough=D, bound=5, cover=['end'], seconds=(150, 1500),
      note='0..3 sources with 1..3 cyclic opaque values each (different numbers), otherwise as `one`')
def many(sx):
    E, P = sx.fx.emitters, sx.P
    names = sx.choose('names', NAMES)
    vals = {n: sx.vals(n, 1 + (i + len(names)) % 3) for i, n in enumerate(names)}
    for v in vals.values():
        if len(v) == 3:
            v[1] = v[0]
    srcs = {n: probe_emitter(sx, v) for n, v in vals.items()}
    given = dict(srcs)
    log = []

    def f(**kw):
        log.append(dict(kw))
        return (len(log), dict(kw))

    def g(rng, **kw):
        return f(**kw)
    em = E.WrapMany(given, sx.choose('fn', [f, g]))
    sx.check(all(s.given == 0 for s in srcs.values()), 'building leaves the sources at their start')
    log.clear()
    pos = 0

    def at(i):
        return {n: v[i % len(v)] for n, v in vals.items()}
    for _ in range(P['calls']):
        out, k = _call(sx, em, P)
        sx.check(sx.eq([x[0] for x in out], list(range(pos + 1, pos + k + 1))), 'one call per output, in order')
        sx.check(all(sorted(x[1]) == sorted(names) for x in out), 'each source under its name')
        sx.check(sx.eq([x[1][n] for x in out for n in names],
                       [at(pos + i)[n] for i in range(k) for n in names]), 'values of the same position')
        pos += k
        sx.check(len(log) == pos, 'one function call per output')
        sx.check(all(s.given == pos for s in srcs.values()), 'one value of each source per output')
    sx.check(list(given) == names, 'the given mapping is unchanged')
    sx.cover('end')


@case('C13', quick=dict(used=3), thorough=dict(used=5), bound=5, cover=['end', 'refused'], seconds=(150, 1000),
      note='replacing the function after 0..used outputs, by a fitting or unfitting one, three ways of assigning; by the same function again')
def refunction(sx):
    E = sx.fx.emitters
    xs, ys = sx.vals('x', 3), sx.vals('y', 2)
    kind = sx.choose('kind', ['one', 'many'])
    a, b = probe_emitter(sx, xs), probe_emitter(sx, ys)
    nested = sx.flag('nested')
    first = E.WrapOne(a, lambda v: v) if nested else a
    if kind == 'one':
        em = E.WrapOne(first, lambda v: ('old', v))
        new, bad = (lambda v: ('new', v)), (lambda: 0)
    else:
        em = E.WrapMany({'p': first, 'q': b}, lambda p, q: ('old', p, q))
        new, bad = (lambda p, q: ('new', p, q)), (lambda p: 0)
    used = sx.small('used', 0, sx.P['used'])
    if used:
        em(used)
    how = sx.choose('how', ['method', 'bound', 'rebound', 'again'])
    if how == 'again':
        if sx.flag('bound'):
            em.wrapper = em.wrapper
        else:
            em.set_wrapper_function(em.wrapper.function)
        sx.check(a.given == 0 and b.given == 0, 'the sources are at their start')
        sx.check(sx.eq(em(2), [('old', xs[i]) if kind == 'one' else ('old', xs[i], ys[i]) for i in range(2)]),
                 'the same function again sees the values from the start')
        return
    fits = sx.flag('fits')

    def change():
        fn = new if fits else bad
        if how == 'method':
            em.set_wrapper_function(fn)
        elif how == 'bound':
            em.wrapper = sx.fx.emitters.wrappers.BoundWrapper(fn, em)
        else:
            other = E.WrapOne(E.Static(0), lambda v: 0)
            em.set_wrapper_function(sx.fx.emitters.wrappers.BoundWrapper(fn, other))
    err = sx.raises(TypeError, change)
    sx.check((err is None) == fits, 'an unfitting function raises TypeError')
    sx.check(a.given == 0 and b.given == 0, 'the sources are at their start')
    if not fits:
        sx.cover('refused')
        em.set_wrapper_function(new)
    n = sx.small('n', 1, 3)
    exp = [('new', xs[i % 3]) if kind == 'one' else ('new', xs[i % 3], ys[i % 2]) for i in range(n)]
    sx.check(sx.eq(em(n), exp), 'the new function sees the values from the start')
    sx.cover('end')


@case('C13', quick=dict(n=3), thorough=dict(n=4), bound=4, cover=['end'], seconds=(150, 1000),
      note='random sources, functions drawing from the wrapper\'s generator; a source running out')
def random_sources(sx):
    E = sx.fx.emitters
    n = sx.small('n', 0, sx.P['n'])
    s = sx.int('seed')
    kind = sx.choose('kind', ['one', 'many', 'short'])
    if kind == 'one':
        em = E.WrapOne(rng_emitter(sx), lambda v, rng: (v, rng.random()), rng_seed=s)
        out = em(n)
        sx.check(sx.eq(out, [(u, r) for u, r in zip(rng_emitter(sx, s)(n), rng_emitter(sx, s)(n))]),
                 'i-th source value with the i-th draw')
    elif kind == 'many':
        xs = sx.vals('x', 4)
        em = E.WrapMany({'a': E.Choice(xs), 'b': rng_emitter(sx)}, lambda b, a: (a, b), rng_seed=s)
        out = em(n)
        sx.check(sx.eq(out, list(zip(E.Choice(xs, rng_seed=s)(n), rng_emitter(sx, s)(n)))),
                 'i-th values of both sources')
    else:
        calls = []
        items = sx.vals('x', 2)
        sx.assume(sx.distinct(items))
        em = E.WrapOne(E.Choice(items, replace=False), lambda v: calls.append(v) or v, rng_seed=s)
        calls.clear()
        err = sx.raises(ValueError, em, 3)
        sx.check(err is not None and not calls, 'a source that runs out passes its error on')
        out = em(2)
        sx.check(sx.distinct(out) and len(calls) == 2, 'and lost nothing')
    sx.cover('end')


@case('C13', quick=dict(calls=2, many=2), thorough=dict(calls=3, many=3), bound=5, cover=['end'], seconds=(150, 1000),
      note='two library sources of the same kind over the same values (any values; the same list object or not), one of them '
           'advanced by itself before and between')
def independent(sx):
    E, P = sx.fx.emitters, sx.P
    xs = sx.vals('x', 3)
    kind = sx.choose('kind', ['sequential', 'tuple', 'iterative', 'wrap', 'choice'])
    s, t = sx.int('s'), sx.int('t')

    def make(seed):
        if kind == 'sequential':
            return E.Sequential(xs)
        if kind == 'tuple':
            return E.Sequential(tuple(xs))
        if kind == 'iterative':
            return E.Iterative(lambda: iter(xs))
        if kind == 'wrap':
            return E.WrapOne(E.Sequential(xs), lambda v: ('w', v))
        return E.Choice([1, 2, 3], rng_seed=seed)
    a, b = make(s), make(t)
    em = E.WrapMany({'a': a, 'b': b}, lambda a, b: (a, b))
    x, y = make(s), make(t)
    if kind == 'choice':
        a.seed(s), b.seed(t)
    for _ in range(P['calls']):
        for i in range(sx.small('ahead', 0, 2)):
            sx.check(sx.eq(a(), x()), 'the source goes on')
        if sx.flag('single'):
            out, exp = [em()], [(x(), y())]
        else:
            n = P['many']
            out, exp = em(n), list(zip(x(n), y(n)))
        sx.check(sx.eq(out, exp), 'the next value of each source')
    sx.cover('end')


@case('C13', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(150, 1500),
      note='source values of any kinds (equal ones of different types, ones that cannot be hashed, None, containers) through one or '
           'two sources: the very values, in order, one call each')
def kinds(sx):
    E, n = sx.fx.emitters, sx.P['n']
    pool = [True, 1, False, 0, None, LISTS[0], LISTS[2], POOL[5], POOL[11]]
    xs = [sx.choose('v', pool) for _ in range(n)]
    log = []
    src = sx.choose('source', ['probe', 'sequential'])
    a = probe_emitter(sx, xs) if src == 'probe' else E.Sequential(xs)
    if sx.flag('two'):
        def f(p, q):
            log.append((p, q))
            return len(log)
        em = E.WrapMany({'q': a, 'p': E.Static(None)}, f)
        exp = [(None, x) for x in xs]
    else:
        def f(v):
            log.append((v,))
            return len(log)
        em = E.WrapOne(a, f)
        exp = [(x,) for x in xs]
    log.clear()
    k = sx.small('k', 0, n)
    out = em(k) + [em() for _ in range(n - k)]
    sx.check(out == list(range(1, n + 1)), 'one call per output, in order')
    sx.check(len(log) == n and all(x is y for g, e in zip(log, exp) for x, y in zip(g, e)), 'the very values')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
