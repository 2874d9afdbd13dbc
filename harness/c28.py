"""C28: deprecated names."""
import typing
import warnings

from sx.case import case
from harness.common import distinct_count

NAMES = [('typing', 'Number'), ('typing', 'EmitterLikeCallable'), ('typing', 'StrEmitterLike'),
         ('typing', 'IntEmitterLike'), ('typing', 'BoolEmitterLike'), ('emitters', 'Wrap'), ('wrappers', 'Wrap')]


def _mod(sx, name):
    return sx.fx.emitters.wrappers if name == 'wrappers' else getattr(sx.fx, name)


def _warned(fn):
    """What fn returns or raises, and the warnings it gave."""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            got = fn()
        except AttributeError as e:
            got = e
    return got, [(w.category, w.message.args[0]) for w in caught]


def _one(sx, ws, *words):
    sx.check(len(ws) == 1, 'one warning')
    sx.check(ws[0][0] is DeprecationWarning, 'a deprecation warning')
    for w in words:
        sx.check(w in ws[0][1], 'names it and its replacement')


@case('C28', bound=8, cover=['end'], seconds=(60, 300),
      note='every deprecated name, 1..3 accesses in a row, through the module and through its __getattr__')
def names(sx):
    mod, name = sx.choose('name', NAMES)
    T = sx.fx.typing
    m = _mod(sx, mod)
    exp, new = {
        'Number': (float, 'float'),
        'EmitterLikeCallable': (typing.Union[typing.Callable[[int], typing.Sequence[T.T]], T.EmitterLike[T.T]],
                                'EmitterLike'),
        'StrEmitterLike': (T.EmitterLike[str], 'EmitterLike[str]'),
        'IntEmitterLike': (T.EmitterLike[int], 'EmitterLike[int]'),
        'BoolEmitterLike': (T.EmitterLike[bool], 'EmitterLike[bool]'),
        'Wrap': (None, 'WrapOne or WrapMany')}[name]
    first = None
    for i in range(sx.small('n', 1, 3)):
        got, ws = _warned(lambda: m.__getattr__(name) if sx.flag('direct') else getattr(m, name))
        _one(sx, ws, name, new)
        if name == 'Wrap':
            sx.check(isinstance(got, type) and issubclass(got, sx.fx.emitter.Emitter), 'the class')
            sx.check(got.__name__ == 'Wrap', 'under its name')
            first = first or got
            sx.check(got is first, 'always the same')
        else:
            sx.check(got == exp, 'the documented object')
        sx.check(name in dir(m), 'listed')
    sx.cover('end')


@case('C28', bound=8, cover=['end'], seconds=(100, 600), quick=dict(len=24), thorough=dict(len=40),
      note='any other name (string of up to len characters): AttributeError, no warning; after any deprecated access')
def unknown(sx):
    mod = sx.choose('mod', ['typing', 'emitters', 'wrappers'])
    m = _mod(sx, mod)
    name = sx.string('name', sx.P['len'])
    for known, dep in NAMES:
        if known == mod:
            sx.assume(sx.not_(sx.eq(name, dep)))
    if sx.flag('before'):
        _warned(lambda: getattr(m, dict(NAMES)[mod]))
    got, ws = _warned(lambda: m.__getattr__(name))
    sx.check(isinstance(got, AttributeError), 'unknown')
    sx.check(not ws, 'without a warning')
    sx.cover('end')


@case('C28', bound=8, cover=['end'], seconds=(60, 300),
      note='every public name of the modules that is not deprecated')
def current(sx):
    mod = sx.choose('mod', ['typing', 'emitters', 'wrappers'])
    m = _mod(sx, mod)
    old = [n for k, n in NAMES if k == mod]
    names = [n for n in (getattr(m, '__all__', None) or
                         ['EmitterLike', 'FieldLike', 'RandomEmitterLike', 'ImplementsRNG', 'WrapOne', 'WrapMany',
                          'BoundWrapper'])
             if n not in old and (mod != 'typing') == (n in ('WrapOne', 'WrapMany', 'BoundWrapper') or
                                                       mod == 'emitters')]
    name = sx.choose('name', names)
    got, ws = _warned(lambda: getattr(m, name))
    sx.check(not isinstance(got, AttributeError), 'resolves')
    sx.check(not ws, 'without a warning')
    sx.cover('end')


@case('C28', bound=8, quick=dict(n=2, len=4), thorough=dict(n=3, len=8), cover=['known', 'unknown'], seconds=(150, 3000),
      note='tables of 0..n deprecated names with any values, with and without replacements; any looked-up name')
def table(sx):
    n = sx.small('n', 0, sx.P['n'])
    keys = ['old', 'Old', 'x', 'olds'][:n]
    vals = [sx.val('v') if sx.flag('any') else sx.choose('lit', [None, False, 0, '']) for _ in keys]
    news = [sx.choose('new', [None, 'Fresh']) for _ in keys]
    tab = {k: (w, v) for k, w, v in zip(keys, news, vals)}
    name = sx.string('name', sx.P['len'])
    got, ws = _warned(lambda: sx.fx.warn.get_deprecated_attr(name, 'pkg.mod', 'module', tab))
    for k, w, v in zip(keys, news, vals):
        if name == k:
            sx.check(sx.eq(got, v) if v is not None else got is None, 'its value')
            sx.check(len(ws) == 1, 'one warning')
            sx.check(ws[0][0] is DeprecationWarning, 'a deprecation warning')
            sx.check(sx.contains(ws[0][1], k), 'names it')
            sx.check(sx.contains(ws[0][1], w or 'deprecated'), 'and its replacement')
            sx.check(sx.not_(sx.contains(ws[0][1], 'None' if w is None else 'nothing')), 'if there is one')
            sx.cover('known')
            return
    sx.check(isinstance(got, AttributeError), 'unknown')
    sx.check(not ws, 'without a warning')
    sx.cover('unknown')


@case('C28', bound=8, quick=dict(n=2, k=3), thorough=dict(n=3, k=4), cover=['end'], seconds=(150, 3000),
      note='sequential emitters of 1..n opaque items, given a factory over 1..n others (list, tuple, string or range '
           'iterators) after up to n values; k values and a reset; both reset flags; assigned up to twice')
def factory(sx):
    xs = sx.vals('x', sx.small('n', 1, sx.P['n']))
    ra = sx.flag('ra')
    em, ws = _warned(lambda: sx.fx.emitters.Sequential(xs, reset_after_call=ra))
    sx.check(not ws, 'creating one does not warn')
    j = sx.small('j', 0, 1)
    _, ws = _warned(lambda: (em(j) if j else None, em.reset(), em.iterator_factory, em.iterator, em.items,
                             em(j) if j else None))
    sx.check(not ws, 'nor does using it')
    for i in range(sx.small('times', 1, 2)):
        kind = 'list' if i else sx.choose('kind', ['list', 'tuple', 'str', 'range'])
        m = sx.small('m', 1, sx.P['n'])
        ys = 'abcd'[:m] if kind == 'str' else range(5, 5 + m) if kind == 'range' else sx.vals('y', m)
        if kind == 'tuple':
            ys = tuple(ys)
        fn = lambda ys=ys: iter(ys)
        _, ws = _warned(lambda: setattr(em, 'iterator_factory', fn))
        _one(sx, ws, 'Sequential', 'iterator_factory')
        ys0, ys = ys, list(ys)
        sx.check(em.iterator_factory is fn, 'the factory given')
        sx.check(sx.eq(list(em.items), ys), 'its items')
        sx.check(em.num_unique_values == distinct_count(sx, ys), 'and how many')
        if not i and m > 1 and kind == 'list' and sx.flag('grown'):
            # what the factory gives has changed; the same factory again
            raw = sx.vals('z', 2)
            del ys0[:]
            ys0.extend(raw)
            em(1)
            _, ws = _warned(lambda: setattr(em, 'iterator_factory', em.iterator_factory))
            _one(sx, ws, 'Sequential', 'iterator_factory')
            ys, m = list(raw), 2
            sx.check(sx.eq(list(em.items), ys), 'its items now')
        k = sx.P['k'] if i else sx.small('k', 1, sx.P['k'])
        many = sx.flag('many')
        for part in range(2):
            got, ws = _warned(lambda: em(k) if many else [em() for _ in range(k)])
            sx.check(sx.eq(got, [ys[0 if ra and not many else p % m] for p in range(k)]), 'its items in order')
            sx.check(not ws, 'no more warnings')
            em.reset()
    sx.cover('end')

from harness import more  # noqa: E402,F401  (more cases)
