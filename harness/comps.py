"""Makers of components for the seeding and resetting properties.

A maker builds a component from a seed; all draws of its parts come from
generators that are to follow this seed.  Random-only makers contain no
sequential parts (which seeding does not rewind).
"""
from harness.common import rng_emitter, rng_chars


class Shop:
    def __init__(self, sx):
        # Inner parts have string seeds: they never equal the symbolic ones.
        self.sx = sx
        self.E = sx.fx.emitters
        self.F = sx.fx.profile.Field
        self.items = sx.vals('item', 2)
        self.w = [2.0, 1.0]

    # -- plain emitters ------------------------------------------------------
    def draw(self, s):
        return rng_emitter(self.sx, s)

    def choice(self, s):
        return self.E.Choice(self.items, rng_seed=s)

    def choice_weighted(self, s):
        return self.E.Choice(self.items, self.w, rng_seed=s)

    def choice_never(self, s):
        return self.E.Choice(self.items, replace=False, rng_seed=s)

    def choice_never_weighted(self, s):
        return self.E.Choice(self.items, self.w, replace=False, rng_seed=s)

    def choice_after(self, s):
        return self.E.Choice(self.items, replace_only_after_call=True, rng_seed=s)

    def choice_after_weighted(self, s):
        return self.E.Choice(self.items, self.w, replace_only_after_call=True, rng_seed=s)

    def choice_range(self, s):
        return self.E.Choice(range(10), rng_seed=s)

    def chance(self, s):
        return self.E.chance(0.25, rng_seed=s)

    def poisson(self, s):
        return self.E.poisson_choice(self.items, 1, rng_seed=s)

    def gaussian(self, s):
        return self.E.gaussian_choice(self.items, 1, 1, rng_seed=s)

    # -- text -----------------------------------------------------------------
    def word(self, s):
        return self.E.Word(self.E.Choice([0, 2], rng_seed='l'), rng_chars(self.sx, 'c'), rng_seed=s)

    def word_choice(self, s):
        return self.E.Word(self.E.Static(1), self.E.Choice('ab'), rng_seed=s)

    def word_fixed(self, s):
        return self.E.Word(self.E.Sequential([2, 0, 1]), rng_chars(self.sx), rng_seed=s)

    def text(self, s):
        return self.E.Text(self.E.Static(2), rng_chars(self.sx, 'c'), rng_chars(self.sx), rng_seed=s)

    def text_words(self, s):
        return self.E.Text(self.E.Choice([0, 1]), self.E.Word(self.E.Static(2), rng_chars(self.sx, 'd')), rng_seed=s)

    def text_after(self, s):
        return self.E.Text(self.E.Static(3), self.E.Choice(['ab', 'c'], replace_only_after_call=True),
                           self.E.Static('-'), rng_seed=s)

    def text_fixed(self, s):
        return self.E.Text(self.E.Sequential([2, 0, 1]), self.E.Sequential(['ab', 'c', 'd']),
                           rng_chars(self.sx), rng_seed=s)

    # -- wrappers ----------------------------------------------------------------
    def wrap(self, s):
        return self.E.WrapOne(rng_emitter(self.sx), lambda v: ('w', v), rng_seed=s)

    def wrap_rng(self, s):
        return self.E.WrapOne(rng_emitter(self.sx, 'd3'), lambda v, rng: (rng.random(), v), rng_seed=s)

    def wrap_seq(self, s):
        return self.E.WrapOne(self.E.Sequential([1, 2, 3]), lambda v, rng: (rng.random(), v), rng_seed=s)

    def wrap_many(self, s):
        return self.E.WrapMany({'a': rng_emitter(self.sx, 'd3'), 'b': self.choice('q')},
                               lambda a, b, rng: (a, b, rng.random()), rng_seed=s)

    def wrap_nested(self, s):
        return self.E.WrapMany(
            {'a': self.E.WrapOne(rng_emitter(self.sx, 'd3'), lambda v, rng: (rng.random(), v), rng_seed='k'),
             'b': self.E.WrapOne(self.wrap_rng('r'), lambda v: [v])},
            lambda a, b, rng: (a, b, rng.random()), rng_seed=s)

    # -- profile -------------------------------------------------------------------
    def field(self, s):
        return self.F('f', rng_emitter(self.sx, 'd1'), rng_seed=s)

    def field_multi(self, s):
        return self.F('f', rng_emitter(self.sx, 'd2'), repeat=self.E.Choice([0, 2]), rng_seed=s)

    def field_gate(self, s):
        return self.F('f', rng_emitter(self.sx, 'd2'), gate=self.E.chance(0.5, rng_seed='h'), rng_seed=s)

    def field_nested(self, s):
        return self.F('f', self.wrap_nested('m'), rng_seed=s)

    def field_never(self, s):
        return self.F('f', self.E.Choice(self.items, replace=False, rng_seed='g'), rng_seed=s)

    def based(self, s):
        src = self.F('src', self.E.Static(self.items[0]))
        src()
        return self.E.BasedOnFields(src, lambda v, rng: (v, rng.random()), rng_seed=s)

    # -- user-defined ------------------------------------------------------------------
    def user(self, s):
        Mixin, base = self.sx.fx.mixins.RandomWithChildrenMixin, self.sx.fx.emitter.Emitter

        class Pair(Mixin, base):
            def emit(self):
                return (self.rng.random(), [e() for e in self.emitters.values()])

            def emit_many(self, number):
                return [self.emit() for _ in range(number)]
        inner = Pair(children={'x': rng_emitter(self.sx, 'd2'), 'none': None}, rng_seed='i')
        inner.emitters.pop('none')
        return Pair(children={'y': inner, 'z': rng_emitter(self.sx), 'k': self.E.Static(5)}, rng_seed=s)

    def user_seq(self, s):
        Mixin, base = self.sx.fx.mixins.RandomWithChildrenMixin, self.sx.fx.emitter.Emitter

        class Pair(Mixin, base):
            def emit(self):
                return (self.rng.random(), [e() for e in self.emitters.values()])

            def emit_many(self, number):
                return [self.emit() for _ in range(number)]
        inner = Pair(children={'x': self.E.Sequential(self.items), 'd': rng_emitter(self.sx, 'd2')}, rng_seed='i')
        return Pair(children={'y': inner, 'z': self.E.Iterative(lambda: iter(self.items))}, rng_seed=s)

    # -- unseeded fixed-order ones (the seed is not used) ---------------------------
    def sequential(self, s):
        return self.E.Sequential(self.items)

    def sequential_rac(self, s):
        return self.E.Sequential(self.items, reset_after_call=True)

    def iterative(self, s):
        def gen():
            yield from self.items
        return self.E.Iterative(gen)


def draws(sx, comp, times=2):
    """One single value and one two-value call (fields: `times` calls)."""
    if not isinstance(comp, sx.fx.emitter.Emitter):
        return [comp() for _ in range(times)]
    return [request(comp, None), request(comp, 2)]


def request(em, k):
    """The outcome of a call; running out of unique values is an outcome."""
    try:
        return em() if k is None else em(k)
    except ValueError:
        return 'refused'


def history(sx, comp, names, seeded=True):
    """One or more operations on a component before it is seeded or reset."""
    op = sx.choose('history', names)
    emitter = isinstance(comp, sx.fx.emitter.Emitter)
    if op == 'one':
        request(comp, None) if emitter else comp()
    elif op == 'many':
        request(comp, 3) if emitter else (comp(), comp())
    elif op == 'reset':
        request(comp, None) if emitter else comp()
        comp.reset()
    elif op == 'reseed':
        if hasattr(comp, 'seed'):
            comp.seed(sx.int('s0'))
        request(comp, None) if emitter else comp()
    elif op == 'attr':
        comp.rng_seed = sx.int('s0')
        request(comp, None) if emitter else comp()
    elif op == 'zero' and emitter:
        comp(0)
    return op
