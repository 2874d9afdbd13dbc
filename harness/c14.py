"""C14: user functions and the owner's generator."""
import functools
import inspect

from sx.case import case
from harness.common import any_seed


class Owner:
    def __init__(self, rng):
        self.rng = rng


class Lookalike:
    random = 5
    rng = None


def _shapes(log):
    """(name, function taking one value, wants an rng)."""
    def rec(*a, **k):
        log.append((a, k))
        return ('out', a)

    class Callable:
        def __call__(self, v, rng):
            return rec(v, rng=rng)

        def meth(self, v, *, rng):
            return rec(v, rng=rng)

        def plain(self, v):
            return rec(v)

        @classmethod
        def cls(cls, v, rng=5):
            return rec(v, rng=rng)

        @staticmethod
        def static(v, rng):
            return rec(v, rng=rng)

    class Result:
        def __init__(self, v, rng):
            rec(v, rng=rng)

    def deco(f):
        @functools.wraps(f)
        def inner(*a, **k):
            return f(*a, **k)
        return inner
    def own(f, *names):
        f.__signature__ = inspect.Signature([inspect.Parameter(n, 1) for n in names])
        return f
    c = Callable()

    class Holder:
        """Not a bound wrapper, though it looks like one."""

        def __init__(self, f, **k):
            self.real, self.function, self.signature = f, (lambda *a, **k: rec('wrong')), None
            self.__dict__.update(k)
            self.__signature__ = inspect.signature(f)

        def __call__(self, *a, **k):
            return self.real(*a, **k)

    def marked(v, rng):
        return rec(v, rng=rng)
    marked.function = lambda v: rec('wrong')

    def rng_word(v, **k):
        return rec(v, **k)

    def rng(v):
        return rec(v)

    def seeded(v, rng_seed=None, random=None):
        return rec(v)
    return {
        'plain': (lambda v: rec(v), False),
        'other name': (lambda rnd: rec(rnd), False),
        'default': (lambda v, x=3: rec(v), False),
        'star': (lambda *a: rec(*a), False),
        'star kw': (lambda *a, **k: rec(*a, **k), False),
        'kw catch-all': (lambda v, **k: rec(v, **k), False),
        'rng': (lambda v, rng: rec(v, rng=rng), True),
        'rng kw-only': (lambda v, *, rng: rec(v, rng=rng), True),
        'rng default': (lambda v, rng=None: rec(v, rng=rng), True),
        'rng and kw': (lambda v, rng, **k: rec(v, rng=rng, **k), True),
        'star and rng': (lambda *a, rng: rec(*a, rng=rng), True),
        'callable object': (c, True),
        'method': (c.meth, True),
        'plain method': (c.plain, False),
        'class method': (c.cls, True),
        'static method': (c.static, True),
        'class': (Result, True),
        'partial': (functools.partial(lambda y, v, rng: rec(v, rng=rng), 7), True),
        'partial rng': (functools.partial(lambda v, rng: rec(v, rng=rng)), True),
        'own signature': (own(deco(lambda *a, **k: rec(*a, **k)), 'v', 'rng'), True),
        'own plain signature': (own(deco(lambda v, rng=None: rec(v)), 'v'), False),
        'twice decorated': (deco(deco(lambda v, rng: rec(v, rng=rng))), True),
        'callable class': (type('Meta', (type,), {'__call__': lambda cls, v, rng: rec(v, rng=rng)})('X', (), {}), True),
        'decorated': (deco(lambda v, rng: rec(v, rng=rng)), True),
        'has a function': (Holder(lambda v, rng: rec(v, rng=rng)), True),
        'has function and owner': (Holder(lambda v: rec(v), bound_to=Owner(None), wants_rng=True), False),
        'function with attributes': (marked, True),
        'catch-all, named rng_': (rng_word, False),
        'named rng': (rng, False),
        'rng_seed': (seeded, False),
    }


SHAPES = list(_shapes([]))


def _seen(sx, log, v, wants, rng, label):
    sx.check(len(log) == 1, f'{label}: called once')
    a, k = log[-1]
    sx.check(len(a) == 1 and sx.truth(sx.eq(a[0], v)), f'{label}: the value as it is')
    if wants:
        sx.check(list(k) == ['rng'] and k['rng'] is rng, f'{label}: the generator in use')
    else:
        sx.check(not k, f'{label}: no generator')
    log.clear()


@case('C14', quick=dict(calls=1), thorough=dict(calls=3), bound=4, cover=['end'], seconds=(300, 2000),
      note='30 signature shapes, one opaque value; after any `calls` of reset, reseeding, rewrapping, replacing the generator, other owners')
def shapes(sx):
    E = sx.fx.emitters
    BW = E.wrappers.BoundWrapper
    log = []
    name = sx.choose('shape', SHAPES)
    fn, wants = _shapes(log)[name]
    v = sx.val('v')
    em = E.WrapOne(E.Static(v), fn, rng_seed=sx.int('s'))
    for _ in range(sx.P['calls']):
        op = sx.choose('op', ['none', 'reset', 'seed', 'rewrap', 'other', 'owner', 'rng', 'nested'])
        if op == 'reset':
            em()
            em.reset()
        elif op == 'seed':
            em.seed(sx.int('t'))
        elif op == 'rewrap':
            em.wrapper = BW(em.wrapper, em)
        elif op == 'other':
            old = em
            em = E.WrapOne(E.Static(v), old.wrapper, rng_seed=sx.int('u'))
            old.seed(1)
            old.reset()
        elif op == 'owner':
            em2 = E.WrapOne(E.Static(v), lambda v: 0)
            em.wrapper.bound_to = em2
            em2.wrapper = em.wrapper
            em = em2
        elif op == 'rng':
            em.rng = sx.random.Random(5)
        elif op == 'nested':
            outer = E.WrapOne(em, lambda x: x)
            outer.reset()
    log.clear()
    out = em()
    if name != 'class':
        sx.check(sx.eq(out, ('out', (v,))), 'the result as it is')
    _seen(sx, log, v, wants, em.rng, 'one')
    em(1)
    _seen(sx, log, v, wants, em.rng, 'one of many')
    sx.check(em.wrapper.wants_rng == wants, 'wants_rng')
    em(2)
    sx.check(len(log) == 2 and (not wants or all(k['rng'] is em.rng for a, k in log)), 'many: the generator in use')
    sx.cover('end')


@case('C14', quick=dict(nargs=2), thorough=dict(nargs=3), bound=4, cover=['end'], seconds=(120, 600),
      note='0..nargs positional and 0..2 named opaque arguments through a bound function, with and without rng; rebinding')
def arguments(sx):
    BW = sx.fx.emitters.wrappers.BoundWrapper
    log = []
    res = sx.val('res')

    def plain(*a, **k):
        log.append((a, k, None))
        return res

    def wants(*a, rng, **k):
        log.append((a, k, rng))
        return res
    w = sx.flag('wants')
    o1, o2 = Owner(sx.random.Random(1)), Owner(sx.random.Random(2))
    bw = BW(wants if w else plain, o1)
    owner = o1
    how = sx.choose('how', ['none', 'rebind', 'assign', 'new rng', 'refunction', 'builtin', 'twice'])
    if how == 'rebind':
        bw, owner = BW(bw, o2), o2
    elif how == 'twice':
        bw, owner = BW(BW(bw, o2), o1), o1
    elif how == 'assign':
        bw.bound_to = owner = o2
    elif how == 'new rng':
        o1.rng = sx.random.Random(3)
    elif how == 'refunction':
        w = not w
        bw.function = wants if w else plain
    elif how == 'builtin':
        bw.function = dict
        sx.check(bw.wants_rng is False and bw.signature is None, 'built-ins have no signature')
        sx.check(sx.eq(bw(x=res), {'x': res}), 'built-ins get no generator')
        bw.function = wants if w else plain
    a = sx.vals('a', sx.small('npos', 0, sx.P['nargs']))
    if a and sx.flag('odd'):
        # a generator, its owner, a function are values like any others
        a[-1] = sx.choose('last', [o1, o2.rng, plain, None, Lookalike(), {'rng': 1}])
    names = sx.choose('names', [[], ['x'], ['y', 'x']])
    kw = {n: sx.val(n) for n in names}
    out = bw(*a, **kw)
    sx.check(sx.eq(out, res), 'the result as it is')
    sx.check(len(log) == 1, 'called once')
    ga, gk, gr = log[0]
    sx.check(sx.eq(list(ga), a), 'positional arguments as they are')
    sx.check(sorted(gk) == sorted(kw) and sx.and_(True, *[sx.eq(gk[n], kw[n]) for n in names]),
             'named arguments as they are')
    sx.check(gr is (owner.rng if w else None), 'the generator if asked for')
    sx.check(bw.wants_rng == w, 'wants_rng')
    sx.cover('end')


BAD1 = ['none', 'two', 'two kw', 'only kw', 'only named', 'rng only', 'rng first', 'positional rng']


def _bad_one(name):
    return {
        'none': lambda: 0,
        'two': lambda a, b: 0,
        'two kw': lambda a, *, b: 0,
        'only kw': lambda **k: 0,
        'only named': lambda *, a: 0,
        'rng only': lambda rng: 0,
        'rng first': lambda rng, v: 0,
        'positional rng': eval('lambda v, rng, /: 0'),
    }[name]


@case('C14', bound=4, cover=['end'], seconds=(120, 600),
      note='signatures that cannot take the values offered: eight for one value, seven for named ones; at building and at reassigning')
def unfit(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    kind = sx.choose('kind', ['one', 'many', 'based1', 'based2'])
    again = sx.flag('again')
    v = sx.val('v')
    if kind in ('one', 'based1'):
        fn = _bad_one(sx.choose('fn', BAD1))
        if kind == 'one':
            em = E.WrapOne(E.Static(v), lambda v: v)
            install = (lambda: em.set_wrapper_function(fn)) if again else (lambda: E.WrapOne(E.Static(v), fn))
        else:
            src = F('f', E.Static(v))
            em = E.BasedOnFields(src, lambda v: v)
            install = (lambda: em.set_action_function(fn)) if again else (lambda: E.BasedOnFields(src, fn))
    else:
        fn = sx.choose('fn', [lambda: 0, lambda f: 0, lambda f, h: 0, lambda f, g, h: 0, lambda *a: 0,
                              lambda rng: 0, lambda f, rng: 0])
        if kind == 'many':
            srcs = {'f': E.Static(v), 'g': E.Static(1)}
            em = E.WrapMany(srcs, lambda f, g: f)
            install = (lambda: em.set_wrapper_function(fn)) if again else (lambda: E.WrapMany(srcs, fn))
        else:
            srcs = [F('f', E.Static(v)), F('g', E.Static(1))]
            em = E.BasedOnFields(srcs, lambda f, g: f)
            install = (lambda: em.set_action_function(fn)) if again else (lambda: E.BasedOnFields(srcs, fn))
    err = sx.raises(TypeError, install)
    sx.check(err is not None, 'an unfitting function raises TypeError when installed')
    sx.cover('end')


class Boom(Exception):
    pass


@case('C14', bound=4, cover=['end'], seconds=(120, 600),
      note='functions raising one of seven kinds of errors, in every kind of owner, after 0..2 good calls')
def errors(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    exc = sx.choose('exc', [Boom, TypeError, ValueError, AttributeError, KeyError, RuntimeError, IndexError])
    good = sx.small('good', 0, 2)
    state = {'left': None}
    mine = exc('mine')

    def work(*a):
        if state['left'] == 0:
            raise mine
        if state['left'] is not None:
            state['left'] -= 1
        return a
    rng = sx.flag('rng')
    kind = sx.choose('kind', ['one', 'many', 'based1', 'based2'])
    one = (lambda v, rng: work(v)) if rng else (lambda v: work(v))
    two = (lambda f, g, rng: work(f, g)) if rng else (lambda f, g: work(f, g))
    if kind == 'one':
        em = E.WrapOne(E.Sequential([1, 2]), one)
    elif kind == 'many':
        em = E.WrapMany({'f': E.Static(1), 'g': E.Static(2)}, two)
    else:
        fs = [F('f', E.Static(1)), F('g', E.Static(2))]
        em = E.BasedOnFields(fs[0] if kind == 'based1' else fs, one if kind == 'based1' else two)
    state['left'] = good
    got = None
    try:
        for _ in range(good):
            em()
        if sx.flag('single'):
            em()
        else:
            em(2)
    except Exception as e:
        got = e
    sx.check(got is mine, 'the error raised by the function arrives unchanged')
    sx.cover('end')


@case('C14', bound=4, cover=['end'], seconds=(60, 200),
      note='built-in callables without a signature, and ones given values they refuse')
def builtins(sx):
    E = sx.fx.emitters
    fn = sx.choose('fn', [str, len, abs, int, bool, dict.fromkeys, max])
    val = sx.choose('val', ['7', 5, [1, 2], None])
    try:
        exp = fn(val)
        bad = None
    except TypeError as e:
        exp, bad = None, e
    except ValueError:
        return
    try:
        em = E.WrapOne(E.Static(val), fn)
    except TypeError as e:
        sx.check(bad is not None, 'a value the function takes is no error')
    else:
        if bad is None:
            sx.check(em() == exp and em(2) == [exp, exp], 'the result as it is')
            sx.check(em.wrapper.wants_rng is False, 'no generator')
        else:
            err = sx.raises(TypeError, em)
            sx.check(err is not None, 'the error of the function arrives')
    sx.cover('end')


@case('C14', bound=4, cover=['end'], seconds=(150, 800),
      note='field-based emitters: one or two sources, actions with and without rng, after reset, reseeding and a new action')
def based(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    v, w = sx.val('v'), sx.val('w')
    f, g = F('f', E.Static(v)), F('g', E.Static(w))
    log = []
    two, rng = sx.flag('two'), sx.flag('rng')
    if two:
        fn = (lambda f, rng, g: log.append((f, g, rng))) if rng else (lambda g, f: log.append((f, g, None)))
        em = E.BasedOnFields([f, g], fn, rng_seed=sx.int('s'))
    else:
        fn = (lambda x, rng=0: log.append((x, rng))) if rng else (lambda x: log.append((x, None)))
        em = E.BasedOnFields(sx.choose('src', [f, [f]]), fn, rng_seed=sx.int('s'))
    op = sx.choose('op', ['none', 'reset', 'seed', 'action', 'rebind', 'rng'])
    if op == 'reset':
        em.reset()
    elif op == 'seed':
        em.seed(sx.int('t'))
    elif op == 'action':
        em.set_action_function(em.action)
    elif op == 'rebind':
        em = E.BasedOnFields([f, g] if two else f, em.action)
    elif op == 'rng':
        em.rng = sx.random.Random(3)
    f(), g()
    log.clear()
    em()
    exp = (v, w) if two else (v,)
    sx.check(len(log) == 1 and sx.truth(sx.eq(log[0][:-1], exp)), 'the values as they are')
    sx.check(log[0][-1] is (em.rng if rng else None), 'the generator in use if asked for')
    sx.cover('end')

from harness import more  # noqa: E402,F401  (more cases)
