"""C27: reported numbers of unique values."""
import warnings

from sx.case import case
from harness.common import LISTS, distinct_count, pooled, remaining_distinct


def _source(sx, n_unique):
    """An emitter that reports the given number of unique values."""
    base = sx.fx.emitter.Emitter

    class Known(base):
        num_unique_values = n_unique

        def emit(self):
            return 'x'

        def emit_many(self, number):
            return ['x'] * number
    return Known()


@case('C27', quick=dict(n=4), thorough=dict(n=6), bound=6, cover=['static', 'seq', 'choice', 'ranged'], seconds=(150, 1500),
      note='static with any value; sequential and choice emitters of 1..n opaque items (falsy and equal ones included) '
           'in lists or tuples, replacing or replacing after calls; integer ranges of any size')
def items(sx):
    E = sx.fx.emitters
    kind = sx.choose('kind', ['static', 'seq', 'choice', 'ranged'])
    if kind == 'static':
        em = E.Static(sx.choose('v', [None, False, 0, '']) if sx.flag('lit') else sx.val('v'))
        sx.check(em.num_unique_values == 1, 'one value')
        em.value = sx.choose('w', [(1, 2), [1, 2], 'ab', {}, None]) if sx.flag('lit2') else sx.val('w')
        sx.check(em.num_unique_values == 1, 'and another')
    elif kind == 'ranged':
        n = sx.int('n', 1, 10 ** 6)
        # duplicates need a set of all values: only the ends are free here
        a = sx.small('len', 1, sx.P['n'])
        em = E.Sequential(range(a)) if sx.flag('seq') else E.Choice(range(n % 7, n % 7 + a))
        sx.check(em.num_unique_values == a, 'every integer of the range')
    else:
        n = sx.small('n', 1, sx.P['n'])
        xs = sx.vals('x', n)
        xs = xs if sx.flag('list') else tuple(xs)
        if kind == 'seq':
            em = E.Sequential(xs, reset_after_call=sx.flag('ra'))
        else:
            em = E.Choice(xs, replace_only_after_call=sx.flag('after'), rng_seed=sx.int('seed'))
        exp = distinct_count(sx, list(xs))
        sx.check(em.num_unique_values == exp, 'the number of different items')
        em()
        sx.check(em.num_unique_values == exp, 'still after emitting')
        em.reset()
        sx.check(em.num_unique_values == exp, 'still after a reset')
        if kind == 'seq' and n < sx.P['n']:
            ys = sx.vals('y', sx.small('m', 1, 2))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                em.iterator_factory = lambda: iter(ys)
            sx.check(em.num_unique_values == distinct_count(sx, ys), 'the number of the new items')
    sx.check(not em.emits_unique_values, 'values may repeat')
    sx.cover(kind)


@case('C27', quick=dict(n=3), thorough=dict(n=4), bound=6, cover=['unique', 'not'], seconds=(200, 1500),
      note='choice emitters of 1..n items: all flags, weights none or 1, 2, 3.., after up to n values')
def claims(sx):
    E = sx.fx.emitters
    n = sx.small('n', 1, sx.P['n'])
    xs = sx.vals('x', n)
    replace, after = sx.flag('replace'), sx.flag('after')
    ws = [float(i + 1) for i in range(n)] if sx.flag('weights') else None
    em = E.Choice(xs, ws, replace=replace, replace_only_after_call=after, rng_seed=sx.int('seed'))
    k = sx.small('k', 0, n)
    out = em(k) if k else []
    claim = sx.truth(em.emits_unique_values)
    if replace or after:
        sx.check(sx.not_(claim), 'values may repeat')
        sx.check(em.num_unique_values == distinct_count(sx, xs), 'the number of different items')
        sx.cover('not')
        return
    left = remaining_distinct(sx, xs, out)
    sx.check(em.num_unique_values == left, 'the different items that are left')
    sx.check(sx.eq(claim, left == n - k), 'unique exactly if none of them is left twice')
    rest = em(n - k) if k < n else []
    sx.check(sx.implies(claim, sx.distinct(rest)), 'and then the rest is')
    sx.cover('unique')


def _lengths(sx, name, n, hi, E):
    """An emitter of numbers with known items (and these), or one that
    cannot tell (and None)."""
    kind = sx.choose(name + '_kind', ['static', 'choice', 'seq', 'unknown'])
    if kind == 'unknown':
        return E.WrapOne(E.Static(1), lambda x: x), None
    if kind == 'static':
        k = sx.small(name, 0, hi)
        return E.Static(k), [k]
    ks = [sx.small(name, 0, hi) for _ in range(sx.small(name + '_n', 1, n))]
    return (E.Choice(ks, rng_seed=1) if kind == 'choice' else E.Sequential(ks)), ks


def _pow(x, k):
    r = 1
    for _ in range(k):
        r = r * x
    return r


@case('C27', quick=dict(n=2, hi=3), thorough=dict(n=3, hi=4), bound=6, cover=['known', 'none'], seconds=(150, 1500),
      note='words: lengths 0..hi, 1..n of them with repeats, alphabets reporting any number of unique values, or none; '
           'sources that cannot tell')
def word(sx):
    E = sx.fx.emitters
    lens, ks = _lengths(sx, 'len', sx.P['n'], sx.P['hi'], E)
    nc = sx.choose('alphabet', ['any', None, 'real'])
    if nc == 'real':
        xs = sx.vals('c', 2)
        alpha, nc = E.Sequential(xs), distinct_count(sx, xs)
    elif nc == 'any':
        nc = sx.int('nc', 0, 10 ** 6)
        alpha = _source(sx, nc)
    else:
        alpha = _source(sx, None)
    em = E.Word(lens, alpha, rng_seed=3)
    _report(sx, em, None if ks is None or nc is None else sum(_pow(nc, k) for k in set(ks)))


@case('C27', quick=dict(n=2, hi=3), thorough=dict(n=3, hi=4), bound=6, cover=['known', 'none'], seconds=(150, 2500),
      note='texts: word counts 0..hi, 1..n of them with repeats, words and separators reporting any numbers of unique '
           'values, or none; default separator; sources that cannot tell')
def text(sx):
    E = sx.fx.emitters
    nums, ks = _lengths(sx, 'num', sx.P['n'], sx.P['hi'], E)
    nw = sx.int('nw', 0, 10 ** 6) if sx.flag('words') else None
    ns = sx.choose('sep', ['any', None, 'default'])
    if ns == 'default':
        em, ns = E.Text(nums, _source(sx, nw), rng_seed=3), 1
    else:
        ns = sx.int('ns', 0, 10 ** 6) if ns == 'any' else None
        em = E.Text(nums, _source(sx, nw), _source(sx, ns), rng_seed=3)
    _report(sx, em, None if ks is None or nw is None or ns is None else
            sum(_pow(nw, k) * _pow(ns, max(k - 1, 0)) for k in set(ks)))


def _report(sx, em, exp):
    for i in range(2):
        got = em.num_unique_values
        if exp is None:
            sx.check(got is None, 'none if a source cannot tell')
            sx.cover('none')
        else:
            sx.check(got is not None, 'known if the sources can tell')
            sx.check(got == exp, 'the number of combinations')
            sx.cover('known')
        sx.check(not em.emits_unique_values, 'values may repeat')
        em.reset() if sx.flag('reset') else em.seed(sx.int('seed'))


@case('C27', bound=6, cover=['end'], seconds=(100, 600),
      note='words over words: nested emitters, all opaque characters; and emitters that cannot tell')
def others(sx):
    E = sx.fx.emitters
    kind = sx.choose('kind', ['nested', 'iterative', 'one', 'many', 'old', 'copy', 'based'])
    v = sx.val('v')
    if kind == 'nested':
        chars = sx.vals('c', 2)
        w = E.Word(E.Static(1), E.Choice(chars, rng_seed=1))
        t = E.Text(E.Choice([1, 2], rng_seed=1), w)
        d = distinct_count(sx, chars)
        sx.check(t.num_unique_values == d + d * d, 'combinations of combinations')
        return
    src = E.Static(v)
    if kind == 'iterative':
        em = E.Iterative(lambda: iter([v]))
    elif kind == 'one':
        em = E.WrapOne(src, lambda x: x)
    elif kind == 'many':
        em = E.WrapMany({'a': src, 'b': E.Choice(['x'])}, lambda a, b: a)
    elif kind == 'old':
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            base = E.wrappers.Wrap

        class Old(base):
            def emit(self):
                return self.wrapper(self.emitters['s'].emit())

            def emit_many(self, number):
                return [self.emit() for _ in range(number)]
        em = Old({'s': src}, lambda x: x)
    else:
        f = sx.fx.profile.Field('f', src)
        em = E.CopyFields(f) if kind == 'copy' else E.BasedOnFields(f, lambda x: x)
        f()
    for i in range(2):
        sx.check(em.num_unique_values is None, 'cannot tell')
        sx.check(not em.emits_unique_values, 'values may repeat')
        em()
    w = E.Word(E.Static(1), em)
    sx.check(w.num_unique_values is None, 'nor can emitters made from it')
    sx.cover('end')


@case('C27', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(60, 600),
      note='n values out of 17 of any kind (equal ones of different types, different ones with the same text, tuples, '
           'None) in sequential and choice emitters')
def kinds(sx):
    E = sx.fx.emitters
    items = pooled(sx, 'item', sx.P['n'])
    em = (E.Sequential if sx.flag('seq') else E.Choice)(items)
    sx.check(em.num_unique_values == distinct_count(sx, items), 'the number of different items')
    sx.check(not em.emits_unique_values, 'values may repeat')
    sx.cover('end')


@case('C27', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(60, 600),
      note='n values out of 8 that cannot be hashed or lists of opaque values, in sequential and choice emitters')
def unhashable(sx):
    E = sx.fx.emitters
    items = [[sx.val('in')] if sx.flag('own') else sx.choose('item', LISTS) for _ in range(sx.P['n'])]
    em = (E.Sequential if sx.flag('seq') else E.Choice)(items)
    sx.check(em.num_unique_values == distinct_count(sx, items), 'the number of different items')
    sx.check(not em.emits_unique_values, 'values may repeat')
    w = E.Word(E.Static(2), em)
    sx.check(w.num_unique_values == distinct_count(sx, items) ** 2, 'and the combinations of them')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
