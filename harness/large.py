"""Large configurations: many items, words, fields, members.

The sizes are concrete (a table), the values and draws symbolic; orders of
draws are limited to a few (sx.limit_draws), so that there are few paths.
Sizes in the other cases are small; these reach code for large ones.
"""
from sx.case import case
from harness.c04 import _probabilities
from harness.common import probe_emitter


def _order(sx, n):
    """An order of n draws: up, down or mixed."""
    how = sx.choose('order', ['up', 'down', 'mixed'])
    if how == 'up':
        return list(range(n))
    if how == 'down':
        return list(range(n))[::-1]
    step = next(s for s in range(n // 2 + 1, 2 * n + 2) if _gcd(s, n) == 1)
    return [(i * step + 1) % n for i in range(n)]


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _weights(sx, n, zero=True):
    kind = sx.choose('weights', ['none', 'equal', 'steps'] + (['zeros'] if zero else []))
    if kind == 'none':
        return None
    if kind == 'equal':
        return [2] * n
    if kind == 'steps':
        return [1 + i % 3 for i in range(n)]
    return [i % 3 for i in range(n)]


def _is_perm(a, b):
    return len(a) == len(b) and len(set(a)) == len(a) and set(a) == set(b)


N1 = dict(sizes=[7, 13, 24])
N2 = dict(sizes=[7, 8, 9, 10, 12, 16, 17, 24, 33, 65])


@case('C02', 'C05', quick=N1, thorough=N2, bound=400, cover=['end'], seconds=(200, 2000),
      note='many different items: sizes as given, four kinds of weights, three orders of draws; one, then some, then the others')
def large_unique(sx):
    n = sx.choose('n', sx.P['sizes'])
    items = list(range(100, 100 + n))
    ws = _weights(sx, n)
    sx.limit_draws(_order(sx, n), n)
    em = sx.fx.emitters.Choice(items, ws, replace=False, rng_seed=sx.int('seed'))
    out = []

    def reports():
        left = n - len(out)
        sx.check(em.num_unique_items == left, 'items not handed out yet')
        sx.check(em.num_unique_values == left, 'different values not handed out yet')
        sx.check(bool(em.emits_unique_values), 'all are different')
    reports()
    for k in (None, sx.choose('k', [1, 2, n // 2, n - 2])):
        out += [em()] if k is None else em(k)
        reports()
    left = n - len(out)
    sx.check(sx.raises(ValueError, em, left + 1) is not None, 'more than remain are refused')
    reports()
    rest = em(left)
    sx.obs(rest)
    sx.check(len(rest) == left, 'as many as requested')
    out += rest
    sx.check(_is_perm(out, items), 'every item once')
    reports()
    sx.check(sx.raises(ValueError, em) is not None, 'a drained emitter refuses')
    sx.cover('end')


@case('C05', quick=N1, thorough=N2, bound=400, cover=['end'], seconds=(100, 1000),
      note='many items, every other value twice: the reports after every batch')
def large_doubles(sx):
    n = sx.choose('n', sx.P['sizes'])
    items = [i // 2 if i % 4 < 2 else i for i in range(n)]
    if sx.flag('replacing'):
        em = sx.fx.emitters.Choice(items, replace_only_after_call=sx.flag('after'))
        sx.check(em.num_unique_items == n and em.num_unique_values == len(set(items)), 'all of them')
        sx.check(not em.emits_unique_values, 'no claim')
    else:
        sx.limit_draws(_order(sx, n), n)
        em = sx.fx.emitters.Choice(items, replace=False, rng_seed=sx.int('seed'))
        left = list(items)
        while True:
            sx.check(em.num_unique_items == len(left), 'items not handed out yet')
            sx.check(em.num_unique_values == len(set(left)), 'different values not handed out yet')
            sx.check(em.emits_unique_values == (len(left) == len(set(left))), 'unique exactly if none is left twice')
            if not left:
                break
            for v in em(min(3, len(left))):
                sx.check(v in left, 'an item that is left')
                left.remove(v)
    sx.cover('end')


@case('C03', quick=N1, thorough=N2, bound=400, cover=['end'], seconds=(200, 2000),
      note='many items: sizes as given, four kinds of weights, three orders of draws; 2, a fifth, more than half or all requested, twice')
def large_after_call(sx):
    n = sx.choose('n', sx.P['sizes'])
    ws = _weights(sx, n)
    items = range(100, 100 + n) if ws is None else list(range(100, 100 + n))
    k = sx.choose('k', [2, n // 5, n // 2 + 1, n])
    order = _order(sx, n)
    sx.limit_draws(order if ws is None or k > n // 2 else order[:1] + order[:k] + order[k:], n)
    em = sx.fx.emitters.Choice(items, ws, replace_only_after_call=True, rng_seed=sx.int('seed'))
    got = em(k)
    sx.obs(got)
    sx.check(len(got) == k, 'as many as requested')
    sx.check(sx.and_(sx.distinct(got), *[sx.and_(v >= 100, v < 100 + n) for v in got]) if got else True,
             'no item twice in one call')
    sx.check(sx.raises(ValueError, em, n + 1) is not None, 'more values than items are refused')
    sx.limit_draws(order, n)
    got = em(n)
    sx.check(sx.and_(len(got) == n, sx.distinct(got)), 'and all in the next call')
    sx.cover('end')


@case('C04', quick=dict(sizes=[9, 24]), thorough=dict(sizes=[7, 9, 12, 17, 24, 33, 65, 130]), bound=400, cover=['end'],
      seconds=(200, 2000),
      note='many items with weights of three kinds: any draw from five parts of [0, 1); by weights and cumulative weights')
def large_weighted(sx):
    n = sx.choose('n', sx.P['sizes'])
    items = list(range(n))
    ws = _weights(sx, n)
    acc, t = [], 0
    for w in ws or [1] * n:
        t += w
        acc.append(t)
    j = sx.choose('part', [0, n // 4, n // 2, n - 2])
    sx.limit_draws([j, j + sx.choose('next', [0, 1])], n)
    seed = sx.int('seed')
    E = sx.fx.emitters
    em = E.Choice(items, ws, rng_seed=seed)
    k = None if sx.flag('single') else 2
    got = [em(), em()] if k is None else em(k)
    sx.obs(got)
    if ws is None:
        sx.check(sx.and_(*[sx.and_(v >= 0, v < n) for v in got]), 'a configured item')
    else:
        _probabilities(sx, items, ws, got, sx.drawlog())
    if ws is not None:
        other = E.Choice(items, cum_weights=acc, rng_seed=seed)
        sx.check(sx.eq([other(), other()] if k is None else other(k), got), 'cumulative weights give the same output')
    sx.cover('end')


@case('C06', quick=dict(sizes=[7, 12]), thorough=N2, bound=400, cover=['end'], seconds=(100, 1500),
      note='many items: weights assigned (or taken away) in any mode; as a new emitter')
def large_weights(sx):
    n = sx.choose('n', sx.P['sizes'])
    items = list(range(n))
    mode = sx.choose('mode', [{}, {'replace': False}, {'replace_only_after_call': True}])
    E = sx.fx.emitters
    order = _order(sx, n)
    seed = sx.int('seed')
    sx.limit_draws(order, n)
    em = E.Choice(items, _weights(sx, n, zero=False), rng_seed=seed, **mode)
    ws = _weights(sx, n, zero=False)
    if ws is not None and sx.flag('cum'):
        acc, t = [], 0
        for w in ws:
            t += w
            acc.append(t)
        em.cum_weights = acc
    else:
        em.weights = ws
    if ws is None:
        sx.check(em.weights is None and em.cum_weights is None, 'no weights')
    else:
        sx.check(list(em.weights) == ws, 'the weights')
        sx.check(list(em.cum_weights) == [sum(ws[:i + 1]) for i in range(n)], 'the running sum')
    sx.limit_draws(order, n)
    em.seed(77)
    new = E.Choice(items, ws, rng_seed=77, **mode)
    k = sx.choose('k', [1, 3, n])
    if mode == {} and k == n:
        k = 2
    sx.check(sx.eq(em(k), new(k)), 'as a new emitter')
    sx.check(sx.raises(ValueError, setattr, em, 'weights', [1] * (n - 1)) is not None, 'a wrong length')
    sx.check(em.weights == new.weights, 'nothing changed')
    sx.cover('end')


@case('C07', quick=dict(sizes=[11, 24]), thorough=N2, bound=400, cover=['end'], seconds=(150, 2000),
      note='many items: sizes as given, four kinds of weights, three orders of draws, four numbers requested')
def large_shuffle(sx):
    n = sx.choose('n', sx.P['sizes'])
    items = tuple(range(100, 100 + n))
    ws = _weights(sx, n) or ([0] * (n - 2) + [1, 3])
    keep = list(ws)
    k = sx.choose('k', [1, n // 4, n // 2 + 1, n - 1, None])
    order = _order(sx, n)
    low = k is not None and k < n // 2
    sx.limit_draws(order[:1] + order if low else order, n)
    out = sx.fx.mathtools.weighted_shuffle(items, ws, sx.random.Random(sx.int('seed')), k)
    k = n if k is None else k
    sx.obs(out)
    sx.check(isinstance(out, list) and len(out) == k, 'exactly the requested number')
    sx.check(len(set(out)) == k and set(out) <= set(items), 'each item from another position')
    wo = [ws[v - 100] for v in out]
    sx.check(all(wo[i] or not wo[i + 1] for i in range(k - 1)), 'zero-weight items come last')
    sx.check(sum(map(bool, wo)) == min(k, sum(map(bool, ws))), 'and only when no other is left')
    sx.check(ws == keep and items == tuple(range(100, 100 + n)), 'arguments unmodified')
    sx.cover('end')


@case('C08', 'C09', quick=dict(sizes=[9, 30]), thorough=dict(sizes=[9, 17, 33, 65]), bound=400, cover=['end'], seconds=(100, 600),
      note='schemas of many fields, composites of many children: seeded and reset as a whole')
def large_schema(sx):
    n = sx.choose('n', sx.P['sizes'])
    E, Pf = sx.fx.emitters, sx.fx.profile
    size = sx.int('size', 2)

    def make():
        return Pf.Schema(*[
            Pf.Field(f'f{i}', E.Choice(sx.range(size)), hide=i % 5 == 3) for i in range(n - 1)
        ] + [Pf.Field('last', E.WrapMany({f's{i}': E.Choice(sx.range(size)) for i in range(n)}, lambda **k: sorted(k.items())))])
    s = sx.int('seed')
    a, b = make(), make()
    if sx.flag('used'):
        a()
    a.seed_fields(s)
    b.seed_fields(s)
    one = a()
    sx.check(sx.eq(list(one.items()), list(b().items())), 'equal seeds give equal documents')
    a()
    a.reset_fields()
    sx.check(all(f.previous is None for f in a.fields.values()), 'no previous values')
    sx.check(sx.eq(list(a().items()), list(one.items())), 'after a reset it starts over')
    sx.cover('end')


@case('C01', 'C10', quick=dict(sizes=[20, 300], n=[130, 700]), thorough=dict(sizes=[20, 65, 129, 300, 1030], n=[17, 65, 130, 700, 2100]),
      bound=5000, cover=['end'], seconds=(100, 600),
      note='many items in fixed-order emitters, many values at once: sizes as given')
def large_cycle(sx):
    size, n = sx.choose('size', sx.P['sizes']), sx.choose('n', sx.P['n'])
    E = sx.fx.emitters
    items = list(range(size))
    items[size // 2] = sx.val('item')
    ra = sx.flag('ra')
    kind = sx.choose('kind', ['seq', 'iter', 'gen'])
    em = (E.Sequential(items, ra) if kind == 'seq' else E.Iterative(lambda: iter(items), ra) if kind == 'iter'
          else E.Iterative(lambda: (x for x in items), ra))
    pos = 0
    for k in (n, 1, n + 1, size, size - 1):
        got = em(k)
        sx.check(isinstance(got, list) and len(got) == k, 'exactly n values')
        sx.check(sx.eq(got, [items[(pos + i) % size] for i in range(k)]), 'the next in order')
        got.clear()
        pos = 0 if ra else pos + k
    sx.check(sx.eq(em(), items[pos % size]), 'and so on')
    sx.check(len(items) == size and len(em.items if kind == 'seq' else items) == size, 'the items are as they were')
    sx.cover('end')


@case('C01', quick=dict(n=[130, 700]), thorough=dict(n=[17, 65, 130, 257, 700, 2100]), bound=5000, cover=['end'], seconds=(100, 600),
      note='many values at once from every other kind of emitter')
def large_counts(sx):
    n = sx.choose('n', sx.P['n'])
    E, F = sx.fx.emitters, sx.fx.profile.Field
    kind = sx.choose('kind', ['static', 'choice', 'one', 'word', 'text', 'wrap', 'many', 'copy', 'based'])
    f = F('f', E.Static(sx.val('v')))
    f()
    em = {
        'static': lambda: E.Static(sx.val('v')), 'choice': lambda: E.Choice(sx.range(sx.int('size', 2, 99))),
        'one': lambda: E.Choice('x'), 'word': lambda: E.Word(E.Sequential([0, 1, 3]), E.Sequential('abcde')),
        'text': lambda: E.Text(E.Sequential([0, 1, 3]), E.Sequential('abcde')),
        'wrap': lambda: E.WrapOne(E.Sequential('abc'), lambda v: v + '.'),
        'many': lambda: E.WrapMany({'a': E.Sequential('abc'), 'b': E.Static(1)}, lambda a, b: (a, b)),
        'copy': lambda: E.CopyFields(f), 'based': lambda: E.BasedOnFields(f, lambda v: v),
    }[kind]()
    for k in (n, n + 1):
        got = em(k)
        sx.check(isinstance(got, list) and len(got) == k, 'exactly n values')
    sx.check(not isinstance(em(), list), 'a single value')
    sx.check(em(0) == [], 'no value')
    sx.cover('end')


@case('C11', quick=dict(lens=[9, 33, 70, 130, 300]), thorough=dict(lens=[5, 9, 17, 33, 70, 100, 130, 257, 300, 1030]),
      bound=5000, cover=['end'], seconds=(100, 600), note='long words: lengths as given, mixed with others; one by one or at once; many words')
def large_words(sx):
    E = sx.fx.emitters
    lens = [sx.choose('len', sx.P['lens']), 0, 2, sx.choose('len2', [1, 70])]
    letters = [chr(97 + i % 26) for i in range(71)]
    letters[40] = sx.char('c')
    n = sx.choose('n', [4, 7, 40])
    src = probe_emitter(sx, letters)
    em = E.Word(E.Sequential(lens), src)
    got = [em() for _ in range(n)] if sx.flag('single') else em(n)
    sx.check(len(got) == n, 'n words')
    pos = 0
    for i in range(n):
        k = lens[i % 4]
        want = sx.join('', [letters[(pos + j) % 71] for j in range(k)])
        pos += k
        sx.check(sx.eq(got[i], want), 'the next characters')
    sx.check(src.given == pos, 'no more characters than needed')
    sx.cover('end')


@case('C12', quick=dict(lens=[4, 5, 8, 9, 10, 11, 16, 33, 130]), thorough=dict(lens=list(range(4, 40)) + [64, 65, 100, 130, 300]),
      bound=5000, cover=['end'], seconds=(150, 900), note='texts of many words: word counts as given, mixed with others; many texts')
def large_texts(sx):
    E = sx.fx.emitters
    nums = [sx.choose('num', sx.P['lens']), 0, 1, 2]
    words = [f'w{i}' for i in range(41)]
    words[7] = sx.string('w', 2)
    seps = ['-', '+', '', sx.string('sep', 1), '--']
    n = sx.choose('n', [1, 4, 30])
    w, s = probe_emitter(sx, words), probe_emitter(sx, seps)
    em = E.Text(E.Sequential(nums), w, s)
    got = [em() for _ in range(n)] if n < 30 and sx.flag('single') else em(n)
    sx.check(len(got) == n, 'n texts')
    wp = sp = 0
    for i in range(n):
        parts = []
        for j in range(nums[i % 4]):
            if j:
                parts.append(seps[sp % 5])
                sp += 1
            parts.append(words[wp % 41])
            wp += 1
        sx.check(sx.eq(got[i], sx.join('', parts)), 'the next words and separators')
    sx.check((w.given, s.given) == (wp, sp), 'words and separators used up exactly')
    sx.cover('end')


@case('C13', quick=dict(n=[101, 130, 300]), thorough=dict(n=[9, 17, 33, 65, 101, 130, 257, 300, 1030]), bound=5000, cover=['end'],
      seconds=(100, 600), note='many outputs at once, many sources; then single ones')
def large_wrappers(sx):
    E = sx.fx.emitters
    n = sx.choose('n', sx.P['n'])
    vals = list(range(500))
    vals[7] = sx.val('v')
    log = []
    if sx.flag('one'):
        src = [probe_emitter(sx, vals)]
        em = E.WrapOne(src[0], lambda v: log.append(v) or ('f', v))
        want = lambda i: ('f', vals[i % 500])
    else:
        m = sx.choose('sources', [2, 9, 20])
        src = [probe_emitter(sx, vals[i:] + vals[:i]) for i in range(m)]
        em = E.WrapMany({f's{i}': e for i, e in enumerate(src)}, lambda **k: log.append(k) or list(k.items()))
        want = lambda i: [(f's{j}', vals[(i + j) % 500]) for j in range(m)]
    log.clear()
    pos = 0
    for k in (n, None, 2):
        got = [em()] if k is None else em(k)
        sx.check(len(got) == (k or 1), 'as many outputs as requested')
        sx.check(sx.eq(got, [want(pos + i) for i in range(k or 1)]), 'the function applied to the next values')
        pos += k or 1
        sx.check(len(log) == pos and all(e.given == pos for e in src), 'once per output')
    sx.cover('end')


@case('C15', quick=dict(n=[20, 130]), thorough=dict(n=[9, 17, 33, 65, 130, 300]), bound=2000, cover=['end'], seconds=(60, 300),
      note='large repeat numbers; repeat emitters listing many numbers')
def large_repeat(sx):
    E = sx.fx.emitters
    n = sx.choose('n', sx.P['n'])
    vals = list(range(7)) + [sx.val('v')]
    src = probe_emitter(sx, vals)
    f = sx.fx.profile.Field('f', src, repeat=E.Sequential([n, None, 1]))
    got = f()
    sx.check(sx.eq(got, [vals[i % 8] for i in range(n)]), 'as many data values')
    sx.check(f.previous is got, 'remembered')
    sx.check(sx.eq(f(), vals[n % 8]), 'a single value')
    sx.check(sx.eq(f(), [vals[(n + 1) % 8]]), 'a list of one')
    items = [None] * n
    k = sx.choose('k', [None, n // 2, n - 1])
    if k is not None:
        items[k] = 3
    g = sx.fx.profile.Field('g', src, repeat=E.Sequential(items))
    sx.check(g.multi_valued == (k is not None), 'single-valued exactly if all are None')
    sx.cover('end')


@case('C16', quick=dict(n=[12, 30, 130]), thorough=dict(n=[9, 12, 17, 30, 65, 130, 300]), bound=2000, cover=['end'], seconds=(60, 400),
      note='schemas of many fields, hidden and public; fields added and replaced, one by one or all at once')
def large_document(sx):
    Pf, E = sx.fx.profile, sx.fx.emitters
    n = sx.choose('n', sx.P['n'])
    calls = []

    def field(i, v):
        f = Pf.Field(f'f{i}', E.WrapOne(E.Static(v), lambda x: calls.append(i) or x), hide=i % 4 == 2)
        calls.clear()
        return f
    vals = [('v', i) for i in range(n)]
    vals[n - 1] = sx.val('v')
    how = sx.choose('how', ['init', 'add', 'each'])
    fields = [field(i, vals[i]) for i in range(n)]
    s = Pf.Schema(*(fields if how == 'init' else []))
    if how == 'add':
        s.add_fields(*fields)
    for f in fields if how == 'each' else []:
        s.add_fields(f)
    for again in range(2):
        calls.clear()
        doc = s()
        pub = [i for i in range(n) if i % 4 != 2]
        sx.check(calls == list(range(n)), 'every field once, in order')
        sx.check(list(doc) == [f'f{i}' for i in pub], 'the public names, in order')
        sx.check(sx.eq(list(doc.values()), [vals[i] for i in pub]), 'and their values')
        sx.check(list(s.public_fields) == [f'f{i}' for i in pub], 'the public view')
        sx.check(list(s.hidden_fields) == [f'f{i}' for i in range(n) if i % 4 == 2], 'the hidden view')
        new = [field(i, ('w', i)) for i in (range(n)[::-1] if sx.flag('all') else (n - 1, 1, 0))]
        s.add_fields(*new)
        for f in new:
            vals[int(f.name[1:])] = ('w', int(f.name[1:]))
    sx.cover('end')


@case('C17', 'C18', quick=dict(n=[12, 60, 130]), thorough=dict(n=[5, 9, 12, 17, 33, 60, 130, 300]), bound=2000, cover=['end'],
      seconds=(60, 400), note='many values in a source, many sources')
def large_sources(sx):
    Pf, E = sx.fx.profile, sx.fx.emitters
    n = sx.choose('n', sx.P['n'])
    a = Pf.Field('a', E.Sequential(range(1000)), repeat=E.Static(n))
    b = Pf.Field('b', E.Static(sx.val('v', none=False)))
    many = [Pf.Field(f'm{i}', E.Static(i)) for i in range(n)]
    log = []

    def action(*p, **k):
        log.append((p, k))
        return 'r'
    based = E.BasedOnFields(many, action)
    for f in [a, b] + many:
        f.reset()
        f()
    log.clear()
    sx.check(based() == 'r' and len(log) == 1, 'one call of the action')
    sx.check(log[0] == ((), {f'm{i}': i for i in range(n)}), 'every value under its name')
    based.seed_source(3)
    based.reset_source()
    sx.check(all(f.rng_seed == 3 and f.previous is None for f in many), 'every source is reached')
    for f in many:
        f()
    src = sx.choose('src', ['list', 'both', 'many', 'single'])
    fields, want = {'list': ([a], a.previous), 'both': ([b, a], [b.previous] + a.previous),
                    'many': (many + [b], list(range(n)) + [b.previous]), 'single': (a, a.previous)}[src]
    sep = sx.choose('sep', [None, '', ', '])
    got = E.CopyFields(fields, separator=sep)()
    if sep is None:
        sx.check(sx.eq(got, want), 'all the values in order')
        got.append(None)
        sx.check(len(a.previous) == n, 'the source is not altered')
    else:
        sx.check(sx.eq(got, sx.join(sep, [sx.str(v) for v in want])), 'all the values joined')
    sx.cover('end')


@case('C19', quick=dict(n=[5, 20, 130]), thorough=dict(n=[4, 5, 6, 7, 9, 12, 17, 20, 33, 65, 130, 300]), bound=2000, cover=['end'],
      seconds=(60, 300), note='groups of many members, some None or without the method')
def large_group(sx):
    G = sx.fx.group
    n = sx.choose('n', sx.P['n'])
    log = []

    class Able:
        attr = 0

        def __init__(self, i):
            self.i = i

        def act(self, *a, **k):
            log.append((self.i, a, k))

    class Unable:
        pass
    off = sx.choose('off', [0, 1])
    ms = [None if i % 7 == 3 else Unable() if i % 5 == 4 else Able(i) for i in range(off, n + off)]
    g = G.ObjectGroup(*ms) if sx.flag('list') else G.ObjectMap({f'k{i}': m for i, m in enumerate(ms)})
    able = [m for m in ms if isinstance(m, Able)]
    x = sx.val('x')
    g.do_method('act', x, y=1)
    sx.check(sx.eq(log, [(m.i, (x,), {'y': 1}) for m in able]), 'every member that has it, once, in order')
    g.setattr('attr', x)
    sx.check(sx.eq([m.attr for m in able], [x] * len(able)), 'every member that has it is set')
    sx.check(not any(hasattr(m, 'attr') for m in ms if isinstance(m, Unable)), 'the others are not')
    sx.cover('end')


@case('C27', quick=dict(n=[20, 130, 600]), thorough=dict(n=[7, 9, 17, 20, 33, 65, 130, 300, 600, 2000]), bound=5000, cover=['end'],
      seconds=(60, 300), note='many items, alphabets and lengths')
def large_numbers(sx):
    E = sx.fx.emitters
    n = sx.choose('n', sx.P['n'])
    d = sx.choose('each', [1, 2, 3])
    items = [i // d for i in range(n)]
    want = (n - 1) // d + 1
    for em in (E.Sequential(items), E.Choice(tuple(items)), E.Choice(items, replace_only_after_call=True)):
        sx.check(em.num_unique_values == want, 'the different items')
        sx.check(not em.emits_unique_values, 'no claim')
    w = E.Word(E.Choice([3, 0, 12, 3]), E.Choice(items))
    sx.check(w.num_unique_values == want ** 3 + 1 + want ** 12, 'words')
    m = min(n, 40)
    w = E.Word(E.Choice(range(m)), E.Static('a'))
    sx.check(w.num_unique_values == m, 'words of one letter')
    t = E.Text(E.Choice([0, 1, 30]), E.Choice(items), E.Choice('-+'))
    sx.check(t.num_unique_values == 1 + want + want ** 30 * 2 ** 29, 'texts')
    sx.cover('end')
