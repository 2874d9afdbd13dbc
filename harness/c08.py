"""C08: equal seeds give equal output."""
from sx.case import case
from harness.common import any_seed
from harness.comps import Shop, draws, history, request

OPS = ['none', 'one', 'many', 'reset', 'reseed', 'attr']


def _run(sx, kinds, literals=True):
    shop = Shop(sx)
    kind = sx.choose('kind', kinds)
    make = getattr(shop, kind)
    s = any_seed(sx, 's') if literals else sx.int('s')
    first = make(s)
    out = draws(sx, first)
    sx.obs(out)
    other = make(sx.choose('before', [None, 't']))
    op = history(sx, other, sx.P['ops'])
    other.seed(s)
    sx.check(sx.eq(draws(sx, other), out), 'seeding later gives the output of that seed')
    if op == 'none':
        again = make(s)
        sx.check(sx.eq(draws(sx, again), out), 'the same constructor seed gives the same output')
    sx.cover(kind)
    sx.cover('end')


C1 = ['draw', 'choice', 'choice_weighted', 'choice_after', 'choice_range', 'chance', 'poisson', 'gaussian']
C2 = ['choice_never', 'choice_never_weighted', 'choice_after_weighted']
T = ['word', 'word_choice', 'text', 'text_words', 'text_after']
W = ['wrap', 'wrap_rng', 'wrap_many', 'wrap_nested', 'user', 'based']
P = ['field', 'field_multi', 'field_gate', 'field_nested', 'field_never']
Q = dict(ops=['none', 'many', 'reset', 'reseed'])
D = dict(ops=OPS, literals=True)
NOTE = 'any integer seed or one of four literals; every history of one operation before seeding; '


@case('C08', quick=Q, thorough=D, bound=4, cover=C1, seconds=(500, 3000), note=NOTE + 'choices with replacement')
def choices(sx):
    _run(sx, C1)


@case('C08', quick=Q, thorough=D, bound=4, cover=C2, seconds=(500, 3000), note=NOTE + 'choices without replacement')
def unique(sx):
    _run(sx, C2, sx.P.get('literals', False))


@case('C08', quick=dict(ops=['none', 'one']), thorough=D, bound=4, cover=T, seconds=(500, 3000), note=NOTE + 'words and texts')
def text(sx):
    _run(sx, T, sx.P.get('literals', False))


@case('C08', quick=D, bound=4, cover=W, seconds=(300, 2000), note=NOTE + 'wrappers, user-defined components, nested to depth 3')
def wrappers(sx):
    _run(sx, W)


@case('C08', quick=Q, thorough=D, bound=4, cover=P, seconds=(400, 3000), note=NOTE + 'fields')
def fields(sx):
    _run(sx, P, sx.P.get('literals', False))


@case('C08', quick=Q, thorough=D, bound=4, cover=['end'], seconds=(300, 2000),
      note='a schema of three fields (one hidden, one nested), seeded as a whole after each field\'s own history')
def schema(sx):
    shop = Shop(sx)
    s = any_seed(sx, 's')

    def make(a, b, c):
        f, g, h = shop.field(a), shop.F('g', shop.wrap_many('x'), hide=True, rng_seed=b), shop.F('h', shop.choice_range('y'), rng_seed=c)
        k = shop.F('k', shop.E.Static(4))
        return sx.fx.profile.Schema(f, g, k, h), g
    x, xg = make(s, s, s)
    out = [x(), xg.previous, x.fields['f']()]
    y, yg = make(None, 'b', 'c')
    op = sx.choose('history', sx.P['ops'])
    if op == 'one':
        y()
    elif op == 'many':
        yg()
        y()
    elif op == 'reset':
        y()
        y.reset_fields()
    elif op in ('reseed', 'attr'):
        y.seed_fields(sx.int('u'))
        yg()
    y.seed_fields(s)
    sx.check(sx.eq([y(), yg.previous, y.fields['f']()], out),
             'seeding the schema gives the output of that seed')
    sx.cover('end')


@case('C08', bound=4, cover=['end'], seconds=(200, 1000),
      note='the same seed set twice, in a row or with a value in between')
def twice(sx):
    shop = Shop(sx)
    kind = sx.choose('kind', ['draw', 'choice_never', 'word', 'wrap_nested', 'field_gate', 'user'])
    make = getattr(shop, kind)
    s = any_seed(sx, 's')
    a = make('t')
    a.seed(s)
    out = draws(sx, a)
    if sx.flag('between'):
        a.seed(sx.int('u'))
        draws(sx, a)
    a.seed(s)
    sx.check(sx.eq(draws(sx, a), out), 'seeding again repeats the output')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
