"""Further cases: values changing between calls, several components in one
run, seeds as documented, extreme weights."""
import functools

from sx.case import case
from harness import dts
from harness.common import probe_emitter, rng_chars, rng_emitter
from harness.dts import DAY


# --- seeds -------------------------------------------------------------------
@case('C08', bound=4, cover=['end'], seconds=(60, 300),
      note='the generator seeded with s (any integer, strings, floats, bytes) makes the draws of random.Random(s), in another '
           'process too: alone and inside words, texts, wrappers, fields, schemas; after seeding, reseeding and reset')
def documented(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    s = sx.choose('literal', [None, 'seed', '', 'Ab', 0.5, b'b', 0, -1, 2 ** 70])
    if s is None:
        s = sx.int('s')
    how = sx.choose('how', ['constructor', 'seed', 'again', 'reset'])
    where = sx.choose('where', ['alone', 'word', 'text', 'one', 'field', 'schema'])
    c = s if how in ('constructor', 'reset') else 'other'
    if where == 'alone':
        em = rng_emitter(sx, c)
    elif where == 'word':
        em = E.Word(E.Static(1), rng_chars(sx), rng_seed=c)
    elif where == 'text':
        em = E.Text(E.Static(1), rng_chars(sx), rng_seed=c)
    elif where == 'one':
        em = E.WrapOne(rng_emitter(sx), lambda v: v, rng_seed=c)
    else:
        em = F('f', rng_emitter(sx), rng_seed=c)
    top = sx.fx.profile.Schema(em) if where == 'schema' else em
    get = (lambda: top()['f']) if where == 'schema' else top
    if how == 'reset':
        get()
        top.reset_fields() if where == 'schema' else top.reset()
    elif how != 'constructor':
        if how == 'again':
            get()
        top.seed_fields(s) if where == 'schema' else top.seed(s)
    rng = sx.random.Random(s)
    exp = [sx.chr(rng.randrange(97, 123)) for _ in range(2)] if where in ('word', 'text') else [rng.random() for _ in range(2)]
    got = [get(), get()]
    sx.obs(got)
    sx.check(sx.eq(got, exp), 'the draws of a generator with that seed')
    sx.cover('end')


@case('C08', bound=4, cover=['end'], seconds=(60, 300),
      note='parts that can be seeded but have no generator, no seed and no reset of the usual names, in any place of any composite')
def own_seed(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    base = sx.fx.emitter.Emitter
    seeds = []

    class Own(base):
        def __init__(self, v):
            self.v = v

        def seed(self, rng_seed):
            seeds.append((self.v, rng_seed))

        def emit(self):
            return self.v

        def emit_many(self, number):
            return [self.v] * number
    where = sx.choose('where', ['word', 'text', 'one', 'many', 'nested', 'field', 'schema'])
    a, b, c = Own(1 if where in ('word', 'text') else 'a'), Own('b'), Own('c')
    parts = [a, b]
    if where == 'word':
        em = E.Word(a, b)
    elif where == 'text':
        em = E.Text(a, b, c)
        parts += [c]
    elif where == 'one':
        em, parts = E.WrapOne(a, lambda v: v), [a]
    elif where == 'many':
        em = E.WrapMany({'p': a, 'q': b}, lambda p, q: 0)
    elif where == 'nested':
        em = E.WrapOne(E.WrapMany({'p': a, 'q': E.WrapOne(b, lambda v: v)}, lambda p, q: 0), lambda v: v)
    else:
        c.v = True
        em = F('f', b, gate=c, repeat=E.Static(1))
        parts = [b, c]
    s = sx.choose('seed', [sx.int('s'), 'x', 0])
    seeds.clear()
    if where == 'schema':
        sx.fx.profile.Schema(em, F('g', a)).seed_fields(s)
        parts = [a, b, c]
    else:
        em.seed(s)
    for p in parts:
        got = [t for v, t in seeds if v is p.v]
        sx.check(len(got) >= 1 and sx.truth(sx.eq(got, [s] * len(got))), 'every part that can be seeded is seeded')
    sx.cover('end')


# --- sources whose values change --------------------------------------------
@case('C11', 'C12', 'C13', 'C15', bound=4, cover=['end'], seconds=(60, 300),
      note='static sources given another value between calls, once or twice, read once or in many')
def changing(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    kind = sx.choose('kind', {'C11': ['length', 'alphabet'], 'C12': ['number', 'word', 'sep'], 'C13': ['one', 'many'],
                              'C15': ['data', 'gate', 'repeat']}[sx.P['prop']])
    a, b, c = E.Static(2), E.Static('ab'), E.Static('-')
    if sx.P['prop'] == 'C11':
        em = E.Word(a, b)
        src, vals = (a, [0, 3, 1]) if kind == 'length' else (b, ['', 'c', 'xyz'])

        def exp():
            return b.value * a.value
    elif sx.P['prop'] == 'C12':
        em = E.Text(a, b, c)
        src, vals = {'number': (a, [0, 3, 1]), 'word': (b, ['', 'c', ' x']), 'sep': (c, ['', '+', ', '])}[kind]

        def exp():
            return c.value.join([b.value] * a.value)
    elif sx.P['prop'] == 'C13':
        em = (E.WrapOne(a, lambda v: ('w', v)) if kind == 'one' else
              E.WrapMany({'p': a, 'q': b}, lambda p, q: ('w', p)))
        src, vals = a, [sx.val('x'), sx.val('y'), None]

        def exp():
            return ('w', a.value)
    else:
        d, g, r = E.Static(sx.val('d')), E.Static(True), E.Static(None)
        em = F('f', d, r, g)
        src, vals = {'data': (d, [sx.val('x'), None, 0]), 'gate': (g, [False, True, 0]), 'repeat': (r, [0, 2, None])}[kind]

        def exp():
            if not g.value:
                return None
            return d.value if r.value is None else [d.value] * r.value

    def use():
        if sx.P['prop'] != 'C15' and sx.flag('many'):
            sx.check(sx.eq(em(2), [exp(), exp()]), 'the present values')
        else:
            sx.check(sx.eq(em(), exp()), 'the present value')
    use()
    for _ in range(2):
        src.value = sx.choose('value', vals)
        use()
    sx.cover('end')


# --- functions ---------------------------------------------------------------
def _pairs(log):
    """Pairs of functions alike but for their wish for a generator."""
    def rec(*a, **k):
        log.append((a, k))
        return len(log)

    def deco(f):
        @functools.wraps(f)
        def inner(*a, **k):
            return f(*a, **k)
        return inner

    def make(rng):
        if rng:
            def f(v, rng):
                return rec(v, rng=rng)
        else:
            def f(v):
                return rec(v)
        return f

    class Obj:
        def __init__(self, f):
            self.__signature__ = sig(f)
            self.f = f

        def __call__(self, *a, **k):
            return self.f(*a, **k)

        def __eq__(self, other):
            return isinstance(other, Obj)

        def __hash__(self):
            return 1
    from inspect import signature as sig
    plain, rng = (lambda v: rec(v)), (lambda v, rng: rec(v, rng=rng))
    return {
        'lambdas': (plain, rng),
        'closures': (make(False), make(True)),
        'decorated': (deco(plain), deco(rng)),
        'partials': (functools.partial(plain), functools.partial(rng)),
        'objects': (Obj(plain), Obj(rng)),
        'methods': (Obj(plain).__call__, deco(rng)),
    }


@case('C14', bound=4, cover=['end'], seconds=(60, 300),
      note='two emitters with functions alike in name, code or equality, one of them taking rng, in either order; and one emitter '
           'given one after the other')
def alike(sx):
    E = sx.fx.emitters
    log = []
    plain, rng = _pairs(log)[sx.choose('pair', list(_pairs([])))]
    fns = [(plain, False), (rng, True)]
    if sx.flag('rng first'):
        fns.reverse()
    v = sx.val('v')
    what = sx.choose('what', ['two', 'one', 'many', 'based'])
    ems = []
    if what == 'based':
        f = sx.fx.profile.Field('v', E.Static(v))
        f()
    em = None
    for fn, wants in fns:
        if what == 'one' and em is not None:
            em.set_wrapper_function(fn)
            ems = [(em, wants)]
            continue
        em = (E.WrapMany({'v': E.Static(v)}, fn) if what == 'many' else E.BasedOnFields(f, fn) if what == 'based'
              else E.WrapOne(E.Static(v), fn))
        ems.append((em, wants))
    for em, wants in ems + ems[:1]:
        log.clear()
        em()
        a, k = log[0]
        k = dict(k)
        sx.check(len(log) == 1 and ('rng' in k) == wants, 'a generator exactly if asked for')
        sx.check(not wants or k.pop('rng') is em.rng, 'the generator of its owner')
        sx.check(sx.eq(list(a) + list(k.values()), [v]), 'and the value')
    sx.cover('end')


# --- counters -----------------------------------------------------------------
@case('C05', quick=dict(calls=2, order=0), thorough=dict(calls=3, order=1), bound=3, cover=['end'], seconds=(300, 1500),
      note='three items (any two equal or none), numbers read between operations: `calls` rounds of one or two values, a restart in '
           'between (reset, other seed, weights, replacement off and on)')
def between(sx):
    from harness.c05 import _report
    x, y = sx.vals('item', 2)
    sx.assume(sx.distinct([x, y]))
    items = [[x, x, y], [y, x, x]][sx.P['order'] and sx.small('order', 0, 1)]
    em = sx.fx.emitters.Choice(items, replace=False, rng_seed=5)
    for i in range(sx.P['calls']):
        if i:
            op = sx.choose('op', ['reset', 'seed', 'weights', 'off'])
            if op == 'reset':
                em.reset()
            elif op == 'weights':
                em.weights = [1, 1, 1]
            elif op == 'off':
                em.replace = True
                em.replace = False
            else:
                em.seed(6)
        out = em(sx.small('k', 1, 2))
        _report(sx, em, items, out, False)
    sx.cover('end')


# --- weights -------------------------------------------------------------------
SPREADS = [[0.5, 0.4, 3, 5000], [1e-12, 2e-12, 1e-12], [1e9, 0.25], [1e-3, 1e3, 1e-3], [1, 10 ** 12, 3], [2 ** 40, 1, 2 ** 40],
           [1e-300, 1e-300], [0.1, 0.2, 0.7], [100, 0, 1e-4]]


@case('C04', bound=6, cover=['end', 'measured'], seconds=(100, 400),
      note='weights from a table of nine kinds (very small, very large, far apart), two draws as two calls, or one call for two')
def spreads(sx):
    ws = sx.choose('weights', SPREADS)
    labels = list('abcd'[:len(ws)])
    E = sx.fx.emitters
    em = E.Choice(labels, ws, rng_seed=sx.int('seed'))
    a = [em(), em()] if sx.flag('single') else em(2)
    log = sx.drawlog()
    sx.obs(a)
    from harness.c04 import _probabilities
    if _probabilities(sx, labels, ws, a, log):
        sx.cover('measured')
    big = max(ws)
    for i, w in enumerate(ws):
        if 0 < w < big and w / sum(ws) > 2.0 ** -45:
            # the draw in the middle of an item's share selects it
            u = (sum(ws[:i]) + w / 2) / sum(ws)
            sx.check(sx.or_(sx.not_(sx.eq(log[0][1], u)), a[0] == labels[i]) if len(log) == 2 and log[0][0] == 'u' else True,
                     'no item is lost')
    sx.cover('end')


@case('C07', 'C02', 'C03', bound=6, cover=['end'], seconds=(100, 400),
      note='weights very small, very large, far apart, or zero next to very small ones; two and three items, any draws')
def spread_shuffle(sx):
    ws = sx.choose('weights', [[0, 1e-10], [1e-10, 0], [1e-6, 0, 1e-12], [0, 1e-200], [1e9, 1e-9, 0], [2 ** 60, 1]])
    items = list('abc'[:len(ws)])
    n = sx.small('n', 0, len(ws))
    seed = sx.int('seed')
    if sx.P['prop'] == 'C07':
        out = sx.fx.mathtools.weighted_shuffle(items, ws, sx.random.Random(seed), n)
    else:
        em = sx.fx.emitters.Choice(items, ws, replace=False, replace_only_after_call=sx.P['prop'] == 'C03', rng_seed=seed)
        out = em(n)
    sx.obs(out)
    sx.check(len(out) == n and len(set(out)) == n and set(out) <= set(items), 'as many items, each once')
    pos = [w for w in ws if w]
    k = min(len(out), len(pos))
    if sx.P['prop'] != 'C03' or n > 1:
        sx.check(all(ws[items.index(x)] for x in out[:k]), 'zero-weight items last')
    sx.cover('end')


# --- restarts after refusals -----------------------------------------------------
@case('C09', bound=6, cover=['end'], seconds=(100, 600),
      note='two to five items given out in one or several calls up to and beyond the last, then reset or seeded (limited orders of '
           'draws): the same output as from the start')
def refused(sx):
    n = sx.small('n', 2, 5)
    order = sx.choose('order', [list(range(n)), list(range(n))[::-1], [(i * 2 + 1) % n if n % 2 else i ^ 1 if i ^ 1 < n else i for i in range(n)]])
    weights = sx.choose('weights', [None, [1, 2, 3, 4, 5][:n]])
    sx.limit_draws(order, n)
    em = sx.fx.emitters.Choice('abcde'[:n], weights, replace=False, rng_seed=5)
    how = sx.choose('how', ['all', 'single', 'more', 'early'])
    # em's first n draws, and those of every later shuffle with this seed
    em.reset()
    if how == 'early':
        sx.check(sx.raises(ValueError, em, n + 1) is not None, 'more than there are')
        em.reset()
    first = em(n)
    if how == 'single':
        sx.check(sx.raises(ValueError, em) is not None, 'no more')
    elif how == 'more':
        for k in (1, n, 2 * n + 1):
            sx.check(sx.raises(ValueError, em, k) is not None, 'no more')
    if sx.flag('seed'):
        em.seed(5)
    else:
        em.reset()
    k = sx.small('k', 0, n)
    got = [em() for _ in range(k)] + em(n - k)
    sx.check(got == first, 'the same from the start')
    sx.check(em.num_unique_items == 0, 'and then none is left')
    sx.cover('end')


# --- date/time ranges --------------------------------------------------------------
@case('C20', 'C21', 'C22', 'C23', bound=4, cover=['end'], seconds=(100, 500),
      note='two ranges one after the other, from the same instant in two zones (naive values and dates: from equal values): the '
           'second one as if it were alone; any start')
def second(sx):
    kind = sx.choose('kind', ['datetime', 'time', 'date'])
    d = sx.dt
    f = sx.fx.dtrange.dtrange
    step, unit = (1, 'days') if kind == 'date' else (30, 'minutes')
    s = DAY if kind == 'date' else 1800 * 10 ** 6
    if kind == 'datetime':
        m1, m2 = sx.choose('zones', [(0, 330), (330, 0), (0, -720)])
        a = dts.value(sx, kind, 'a', m1, 3, 3652050)
        b = a + sx.td((m2 - m1) * 60 * 10 ** 6)
        b = b.replace(tzinfo=sx.tz(m2))
    else:
        m1 = m2 = None
        a = b = dts.value(sx, kind, 'a', None, *((3, 3652050) if kind == 'date' else ()))
        if kind == 'time':
            sx.assume(dts.us(sx, kind, a) < DAY - 4 * s)
            m2 = 330
            b = a.replace(tzinfo=sx.tz(m2))

    def add(x, n):
        if kind == 'time':
            t = dts.us(sx, kind, x) + n * s
            return d.time(t // (3600 * 10 ** 6), t // (60 * 10 ** 6) % 60, t // 10 ** 6 % 60, t % 10 ** 6, x.tzinfo)
        return x + sx.td(n * s)
    n1, n2 = 3, sx.choose('n2', [3, 2])
    r = f(a, add(a, n1), step, unit)
    what = sx.choose('first', ['values', 'hash', 'index', 'stop', 'repr'])
    if what == 'values':
        r[0], r[1], list(r[1:])
    elif what == 'hash':
        sx.hash(r)
    elif what == 'index':
        r.index(r[1])
    elif what == 'stop':
        r.stop
    else:
        sx.eq(r, r)
    q = f(b, add(b, n2), step, unit)
    sx.check(len(q) == n2, 'as long as it should be')
    got = [q[0], q[-1]] + list(q[1:])
    want = [0, n2 - 1] + list(range(1, n2))
    for x, i in zip(got, want):
        sx.check(dts.us(sx, kind, x) == dts.us(sx, kind, b) + i * s, 'its own values')
        if m2 is not None:
            sx.check(x.tzinfo == sx.tz(m2), 'in its own zone')
    sx.check(q.index(q[1]) == 1 and q[0] in q, 'found')
    sx.cover('end')


@case('C23', bound=4, cover=['end'], seconds=(100, 400),
      note='the hash and equality of a range (empty, one value, several) stay after its stop, text, values and positions were asked for')
def touched(sx):
    kind = sx.choose('kind', ['date', 'datetime', 'time'])
    n = sx.small('n', 0, 2)
    start = dts.value(sx, kind, 'a', None, *(() if kind == 'time' else (5, 3652000)))
    s = DAY if kind == 'date' else 10 ** 6

    def make(at=0):
        x = start
        if at and n == 0 and kind != 'time':
            x = start + sx.td(at * DAY)
        return sx.fx.dtrange.DateOrTimeRange(x, n, sx.td(s))
    r, q = make(), make(1)
    h = sx.hash(r)
    sx.check(sx.eq(h, sx.hash(q)) and sx.truth(r == q), 'equal')
    op = sx.choose('op', ['stop', 'values', 'len', 'in', 'slice', 'bool'])
    for x in (r, q) if sx.flag('both') else (r,):
        if op == 'stop':
            x.stop
        elif op == 'values':
            list(x), list(reversed(x))
        elif op == 'in':
            start in x, x.count(start)
        elif op == 'slice':
            x[:], x[::-1], x[1:]
        elif op == 'bool':
            bool(x), len(x)
    sx.check(sx.eq(sx.hash(r), h), 'the hash stays')
    sx.check(sx.truth(r == q) and sx.truth(q == r) and sx.eq(sx.hash(r), sx.hash(q)), 'still equal')
    sx.cover('end')


# --- unique values -------------------------------------------------------------------
ALIKE = [['a', 'A', 'b'], ['a', ' a', 'a '], ['', ' ', 'x'], ['1', '01', '1.0'], ['e\u0301', '\xe9', 'e'], ['\xdf', 'ss', 'SS'],
         ['a', 'a', 'A', 'a'], [0.0, -0.0, 0], [1, 1.0, True, '1'], [float('inf'), float('-inf'), 10 ** 400],
         [(1, 2), [1, 2], (1, 2)], ['ab', 'ba', ('a', 'b')], [2 ** 53, 2 ** 53 + 1, float(2 ** 53)], [None, 'None', 0, '']]


@case('C27', 'C05', bound=8, cover=['end'], seconds=(60, 300),
      note='items from a table of values that are nearly, or in other types, the same; the number as == counts them')
def nearly_same(sx):
    E = sx.fx.emitters
    items = sx.choose('items', ALIKE)
    want = 0
    for i, x in enumerate(items):
        want += x not in items[:i]
    kind = sx.choose('kind', ['choice', 'never', 'after', 'sequential', 'word', 'text'])
    if kind in ('word', 'text') and not all(isinstance(x, str) for x in items):
        return
    seq = tuple(items) if sx.flag('tuple') else items
    if kind in ('choice', 'never', 'after'):
        em = E.Choice(seq, replace=kind == 'choice', replace_only_after_call=kind == 'after', rng_seed=1)
        sx.check(em.num_unique_values == want and em.num_unique_items == len(items), 'values as == counts them')
    elif kind == 'sequential':
        sx.check(E.Sequential(seq).num_unique_values == want, 'values as == counts them')
    elif kind == 'word':
        sx.check(E.Word(E.Static(2), E.Choice(seq)).num_unique_values == want ** 2, 'in words')
    else:
        sx.check(E.Text(E.Static(2), E.Choice(seq), E.Sequential(seq)).num_unique_values == want ** 3, 'in texts')
    sx.cover('end')
