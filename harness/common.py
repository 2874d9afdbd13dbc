"""Helpers shared by the harnesses (run in symbolic and in concrete mode)."""


# Weights are zero or within these bounds (stated in DESIGN.md).
WMIN, WMAX = 2.0 ** -8, 2.0 ** 8


def count(sx, xs, v):
    """Symbolic number of elements of xs equal to v."""
    n = 0
    for x in xs:
        n = n + sx.ite(sx.eq(x, v), 1, 0)
    return n


def is_permutation(sx, xs, ys):
    """xs and ys have the same values with the same multiplicities."""
    if len(xs) != len(ys):
        return False
    return sx.and_(*[sx.eq(count(sx, xs, v), count(sx, ys, v)) for v in ys]) \
        if ys else True


def is_submultiset(sx, xs, ys):
    """No value occurs in xs more often than in ys."""
    if not xs:
        return True
    return sx.and_(*[count(sx, xs, v) <= count(sx, ys, v) for v in xs])


def distinct_count(sx, xs):
    """Symbolic number of different values in xs."""
    n = 0
    for i, x in enumerate(xs):
        n = n + sx.ite(sx.or_(*[sx.eq(x, y) for y in xs[:i]]) if i else False,
                       0, 1)
    return n


def remaining_distinct(sx, items, out):
    """Number of values with fewer occurrences in out than in items."""
    n = 0
    for i, x in enumerate(items):
        first = sx.not_(sx.or_(*[sx.eq(x, y) for y in items[:i]])) if i else True
        left = count(sx, items, x) > count(sx, out, x)
        n = n + sx.ite(sx.and_(first, left), 1, 0)
    return n


def weights_for(sx, name, n, zero=True, hi=None):
    """n symbolic non-negative weights with a positive total."""
    ws = [sx.real(f'{name}', 0, hi or WMAX, lo_strict=not zero)
          for _ in range(n)]
    for w in ws:
        sx.assume(sx.or_(sx.eq(w, 0), w >= WMIN))
    if zero:
        sx.assume(sum(ws) > 0)
    return ws


def probe_emitter(sx, values, truth=None):
    """An emitter handing out values in order and counting what it gave;
    truth: 'bool' or 'len' makes it false or empty as an object."""
    base = sx.fx.emitter.Emitter

    class Probe(base):
        def __init__(self):
            self.given = 0
            self.resets = 0

        def reset(self):
            self.given = 0
            self.resets += 1

        def emit(self):
            v = values[self.given % len(values)]
            self.given += 1
            return v

        def emit_many(self, number):
            return [self.emit() for _ in range(number)]
    if truth == 'bool':
        Probe.__bool__ = lambda self: False
    elif truth == 'len':
        Probe.__len__ = lambda self: 0
    return Probe()


def rng_emitter(sx, seed=None):
    """A random emitter whose values are the raw draws of its generator."""
    Mixin, base = sx.fx.mixins.RandomMixin, sx.fx.emitter.Emitter

    class Draw(Mixin, base):
        def emit(self):
            return self.rng.random()

        def emit_many(self, number):
            return [self.rng.random() for _ in range(number)]
    return Draw(rng_seed=seed)


def rng_chars(sx, seed=None):
    """A random emitter of single letters (one integer draw each)."""
    Mixin, base = sx.fx.mixins.RandomMixin, sx.fx.emitter.Emitter

    class Chars(Mixin, base):
        def emit(self):
            return sx.chr(self.rng.randrange(97, 123))

        def emit_many(self, number):
            return [self.emit() for _ in range(number)]
    return Chars(rng_seed=seed)


def any_seed(sx, name):
    """A seed: any integer, or one of the literals incl. falsy ones."""
    k = sx.choose(name + '_kind', ['int', 'lit'])
    if k == 'int':
        return sx.int(name)
    return sx.choose(name + '_lit', ['', 'seed', 0.0, b''])


# Values of every kind: equal ones of different types, different ones with the
# same text, containers, subclasses.
class Pair(tuple):
    __slots__ = ()


class Items(list):
    pass


class Text(str):
    __slots__ = ()


POOL = [1, True, 1.0, '1', 'True', 0, '', None, 'None', 1.5, Text('1'), (1,), Pair((1,)),
        frozenset([1]), b'1', float('inf'), 2 ** 70]


# Values that cannot be hashed.
LISTS = [[1], [1], {}, [2], [], [True], {'a': 1}, bytearray(b'1')]


def pooled(sx, name, n, pool=None):
    """n values of any kinds."""
    return [sx.choose(name, pool or POOL) for _ in range(n)]
