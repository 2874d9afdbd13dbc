"""C09: reset rewinds to the start under the current seed."""
from sx.case import case
from harness.common import any_seed, probe_emitter
from harness.comps import Shop, draws, history, request


def _run(sx, kinds):
    shop = Shop(sx)
    kind = sx.choose('kind', kinds)
    make = getattr(shop, kind)
    a = make(sx.int('s'))
    # what was emitted or refused before
    for _ in range(sx.P['calls']):
        history(sx, a, sx.P['ops'])
    how = sx.choose('how', sx.P['how'])
    seedable = hasattr(a, 'seed')
    s = sx.int('now') if how != 'keep' else getattr(a, 'rng_seed', None)
    if how == 'seed' and seedable:
        a.seed(s)
        if sx.flag('used'):
            request(a, None) if isinstance(a, sx.fx.emitter.Emitter) else a()
    elif how == 'attr' and seedable:
        a.rng_seed = s
    a.reset()
    if how == 'keep':
        a.reset()
    if not isinstance(a, sx.fx.emitter.Emitter):
        sx.check(a.previous is None, 'a reset field has no previous value')
    out = draws(sx, a)
    sx.obs(out)
    fresh = make(s)
    sx.check(sx.eq(draws(sx, fresh), out), 'after reset the output starts over')
    sx.cover(kind)
    sx.cover('end')


F = ['sequential', 'sequential_rac', 'iterative', 'draw', 'user', 'user_seq']
C1 = ['choice', 'choice_weighted', 'choice_after', 'choice_range']
C2 = ['choice_never', 'choice_never_weighted', 'choice_after_weighted']
T = ['word', 'word_fixed', 'word_choice', 'text', 'text_words', 'text_after', 'text_fixed']
W = ['wrap', 'wrap_rng', 'wrap_seq', 'wrap_many', 'wrap_nested', 'based']
P = ['field', 'field_multi', 'field_gate', 'field_nested', 'field_never']
HOW = ['keep', 'seed', 'attr']
Q = dict(ops=['one', 'many', 'reseed'], how=HOW, calls=1)
D = dict(ops=['none', 'one', 'many', 'reset', 'reseed', 'attr', 'zero'], how=HOW, calls=2)
NOTE = 'any integer seeds; one operation (thorough: two) before the reset; the seed kept, reseeded or assigned; '


@case('C09', quick=Q, thorough=D, bound=4, cover=F, seconds=(300, 3000), note=NOTE + 'fixed-order and user-defined components')
def fixed(sx):
    _run(sx, F)


@case('C09', quick=Q, thorough=D, bound=4, cover=C1, seconds=(400, 3000), note=NOTE + 'choices with replacement')
def choices(sx):
    _run(sx, C1)


@case('C09', quick=dict(Q, ops=['many'], how=['keep', 'attr']), thorough=dict(D, calls=1), bound=4, cover=C2,
      seconds=(500, 3000), note=NOTE + 'choices without replacement')
def unique(sx):
    _run(sx, C2)


@case('C09', quick=Q, thorough=D, bound=4, cover=T, seconds=(400, 3000), note=NOTE + 'words and texts')
def text(sx):
    _run(sx, T)


@case('C09', quick=Q, thorough=D, bound=4, cover=W, seconds=(300, 3000), note=NOTE + 'wrappers')
def wrappers(sx):
    _run(sx, W)


@case('C09', quick=dict(Q, ops=['one', 'many'], how=['keep', 'attr']), thorough=dict(D, calls=1), bound=4, cover=P,
      seconds=(400, 3000), note=NOTE + 'fields')
def fields(sx):
    _run(sx, P)


@case('C09', quick=dict(ops=['one', 'many', 'reseed', 'part']), thorough=dict(ops=['one', 'many', 'reseed', 'part', 'reset']),
      bound=4, cover=['end'], seconds=(300, 2000), note='a schema of four fields, one hidden, reset as a whole')
def schema(sx):
    shop = Shop(sx)

    def make(a, b, c):
        f, g, h = shop.field(a), shop.F('g', shop.wrap_many('x'), hide=True, rng_seed=b), shop.F('h', shop.choice_range('y'), rng_seed=c)
        k = shop.F('k', shop.E.Sequential([1, 2, 3]))
        return sx.fx.profile.Schema(f, g, k, h), g, k
    s = sx.int('s')
    y, yg, yk = make(s, 'b', s)
    op = sx.choose('history', sx.P['ops'])
    seeds = (s, 'b', s)
    if op == 'one':
        y()
    elif op == 'many':
        y()
        y()
    elif op == 'part':
        yg()
        yk()
    elif op == 'reset':
        y.reset_fields()
        yk()
    else:
        y()
        t = sx.int('t')
        y.seed_fields(t)
        seeds = (t, t, t)
    y.reset_fields()
    sx.check(sx.and_(*[f.previous is None for f in y.fields.values()]), 'previous values forgotten')
    x, xg, xk = make(*seeds)
    for _ in range(2):
        sx.check(sx.eq([y(), yg.previous], [x(), xg.previous]), 'the schema starts over')
    sx.cover('end')


@case('C09', bound=4, cover=['end', 'closed'], seconds=(120, 600),
      note='a schema of three gated and repeated fields, one hidden; any gate answers; reset after 0..2 documents or single calls')
def gated(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    gates = [sx.flag('gate') for _ in range(2)]
    xs = sx.vals('x', 3)
    s = sx.int('s')

    def make():
        f = F('f', E.Sequential(xs), gate=E.Sequential(gates))
        g = F('g', E.Sequential(xs), repeat=E.Sequential([0, None, 1]), hide=True)
        h = F('h', E.Choice(range(3)), gate=E.Choice([True, False]), rng_seed=s)
        return sx.fx.profile.Schema(f, g, h), (f, g, h)
    y, parts = make()
    for _ in range(sx.small('docs', 0, 2)):
        y()
    if sx.flag('single'):
        parts[sx.small('which', 0, 2)]()
    if any(f.previous is None for f in parts[:1]):
        sx.cover('closed')
    y.reset_fields()
    sx.check(sx.and_(*[f.previous is None for f in parts]), 'previous values forgotten')
    x, other = make()
    for _ in range(2):
        a, b = y(), x()
        sx.check(sx.eq(a, b), 'the schema starts over')
        sx.check(sx.eq([f.previous for f in parts], [f.previous for f in other]), 'hidden fields too')
    sx.cover('end')


@case('C09', bound=4, cover=['end'], seconds=(120, 600),
      note='user-defined children: each is reset, once they were used, and gets the seed of its parent')
def children(sx):
    """Observes directly what a composite does to the parts inside it."""
    E, F = sx.fx.emitters, sx.fx.profile.Field
    p, q, r = (probe_emitter(sx, [1, 2, 3]) for _ in range(3))
    p.rng_seed = 'old'
    s = sx.int('s')
    kind = sx.choose('kind', ['word', 'text', 'wrapone', 'wrapmany', 'field', 'nested'])
    if kind == 'word':
        q = probe_emitter(sx, ['a', 'b'])
        c = E.Word(p, q, rng_seed=s)
        parts = [p, q]
    elif kind == 'text':
        q, r = probe_emitter(sx, ['a', 'b']), probe_emitter(sx, ['-'])
        c = E.Text(p, q, r, rng_seed=s)
        parts = [p, q, r]
    elif kind == 'wrapone':
        c = E.WrapOne(p, lambda v: v, rng_seed=s)
        parts = [p]
    elif kind == 'wrapmany':
        c = E.WrapMany({'a': p, 'b': q}, lambda a, b: (a, b), rng_seed=s)
        parts = [p, q]
    elif kind == 'field':
        c = F('f', p, q, r, rng_seed=s)
        parts = [p, q, r]
    else:
        c = F('f', E.WrapOne(E.WrapMany({'a': p, 'b': q}, lambda a, b: (a, b)), lambda v: v), gate=r, rng_seed=s)
        parts = [p, q, r]
    sx.check(all(x.given == 0 for x in parts), 'building leaves every part at its start')
    sx.check(sx.eq(p.rng_seed, s), 'building passes the seed on')
    c()
    if sx.flag('more'):
        c()
    t = sx.int('t')
    c.rng_seed = t
    counts = [x.resets for x in parts]
    c.reset()
    sx.check(all(x.given == 0 for x in parts), 'every part is at its start')
    sx.check(all(x.resets > n for x, n in zip(parts, counts)), 'every part was reset')
    sx.check(sx.eq(p.rng_seed, t), 'the seed reached the part inside')
    sx.check(not hasattr(q, 'rng_seed') and not hasattr(r, 'rng_seed'), 'parts without a seed get none')
    sx.cover(kind)
    sx.cover('end')


@case('C09', bound=4, cover=['end'], seconds=(100, 600),
      note='any parent, its seed set to None, a falsy literal or any integer: the parts inside have that seed after a reset')
def seeds_inside(sx):
    shop = Shop(sx)
    kind = sx.choose('kind', ['word', 'text', 'wrap', 'wrap_many', 'field', 'based', 'nested'])
    E = sx.fx.emitters
    inner = E.Choice([1, 2], rng_seed=sx.choose('old', [7, None]))
    if kind == 'word':
        c = E.Word(inner, E.Choice('ab'), rng_seed=3)
    elif kind == 'text':
        c = E.Text(inner, E.Static('a'), E.Static('-'), rng_seed=3)
    elif kind == 'wrap':
        c = E.WrapOne(inner, lambda v: v, rng_seed=3)
    elif kind == 'wrap_many':
        c = E.WrapMany({'a': inner, 'b': E.Static(1)}, lambda a, b: a, rng_seed=3)
    elif kind == 'field':
        c = sx.fx.profile.Field('f', E.Static(1), inner, E.Choice([True]), rng_seed=3)
    elif kind == 'based':
        c = E.BasedOnFields(sx.fx.profile.Field('f', E.Static(1)), lambda v: v, rng_seed=3)
        inner = c
    else:
        c = sx.fx.profile.Field('f', E.WrapOne(inner, lambda v: v), rng_seed=3)
    now = sx.choose('now', [None, 0, '', 'x', sx.int('s')])
    if sx.flag('used'):
        c()
    if sx.flag('seed'):
        c.seed(now)
    else:
        c.rng_seed = now
        c.reset()
    sx.check(inner.rng_seed is None if now is None else sx.eq(inner.rng_seed, now), 'the seed of the part inside')
    sx.check(c.rng_seed is None if now is None else sx.eq(c.rng_seed, now), 'the seed itself')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
