"""C17: copied fields."""
from sx.case import case
from harness.common import Items, Pair, POOL, Text


class Source:
    """A field-like object that records every operation on it."""

    def __init__(self, name, multi_valued=False):
        self.name, self.multi_valued, self.hide = name, multi_valued, False
        self.value = None
        self.ops = []

    @property
    def previous(self):
        return self.value

    def __call__(self):
        self.ops.append('call')
        return self.value

    def reset(self):
        self.ops.append('reset')
        self.value = None

    def seed(self, s):
        self.ops.append('seed')


def _value(sx, kinds):
    """(the value, its contribution to a concatenation)."""
    k = sx.choose('kind', kinds)
    if k == 'none':
        return None, []
    if k == 'opaque':
        v = sx.val('v')
        return v, ([] if sx.none(v) else [v])
    if k == 'zero':
        return 0, [0]
    if k == 'false':
        return False, [False]
    if k == 'text':
        v = sx.string('t', 2)
        return v, [v]
    if k == 'int':
        v = sx.int('i')
        return v, [v]
    if k == 'dict':
        v = {'k': 1}
        return v, [v]
    if k == 'str':
        return 'abc', ['abc']
    xs = sx.vals('v', {'list0': 0, 'list1': 1, 'list2': 2, 'tuple2': 2, 'tuple0': 0, 'nones': 1}[k])
    if k == 'nones':
        xs = [None, xs[0]]
    # a None inside a list is a value
    v = tuple(xs) if k.startswith('tuple') else xs
    return v, list(xs)


KINDS = ['none', 'opaque', 'zero', 'list0', 'list2', 'tuple2', 'str']
ALL = KINDS + ['false', 'text', 'int', 'dict', 'list1', 'tuple0', 'nones']


def _expect(sx, parts, sep):
    flat = [x for p in parts for x in p]
    if sep is None:
        return flat or None
    return sx.join(sep, [sx.str(x) for x in flat])


def _same(sx, a, b):
    return type(a) is type(b) and sx.truth(sx.eq(a, b)) if not _symbolic(a, b) else sx.eq(a, b)


def _symbolic(*xs):
    return any(type(x).__module__.startswith('sx.') for x in xs)


@case('C17', quick=dict(nsrc=2, kinds=KINDS), thorough=dict(nsrc=3, kinds=ALL), bound=4, cover=['end', 'empty', 'joined', 'list'],
      seconds=(300, 5000),
      note='0..nsrc sources given as a list or tuple, latest values of every kind in the list (None, falsy, lists, '
           'tuples, texts), separator none, empty, literal or any string; single and repeated requests')
def concatenation(sx):
    P = sx.P
    n = sx.small('nsrc', 0, P['nsrc'])
    srcs = [Source(f's{i}', sx.flag('multi')) for i in range(n)]
    given = sx.choose('container', [list, tuple])(srcs)
    s = sx.choose('sep', [None, '', ', ', 'any'])
    sep = sx.string('sepv', 2) if s == 'any' else s
    em = sx.fx.emitters.CopyFields(given) if s is None else sx.fx.emitters.CopyFields(given, sep)
    vals = [_value(sx, P['kinds'] if i < 2 else P['kinds'][:4]) for i in range(n)]
    for f, (v, _) in zip(srcs, vals):
        f.value = v
    exp = _expect(sx, [p for _, p in vals], sep)
    out = em()
    sx.obs(list(out) if isinstance(out, list) else out)
    if sep is None:
        sx.check(out is None if exp is None else isinstance(out, list), 'a list, or None if there is nothing')
    sx.check(sx.eq(out, exp), 'the values of all sources in order')
    sx.cover('empty' if exp is None else 'list' if sep is None else 'joined')
    k = sx.small('k', 0, 2)
    many = em(k)
    sx.check(isinstance(many, list) and len(many) == k, 'as many results as requested')
    sx.check(sx.eq(many, [exp] * k), 'the one result repeated')
    if isinstance(out, list):
        out.append('junk')
        sx.check(sx.eq(em(), exp), 'a changed result does not change the next')
    sx.check(all(not f.ops for f in srcs), 'the sources are not called, reset or seeded')
    sx.check(all(f.value is v for f, (v, _) in zip(srcs, vals)), 'their values are theirs')
    for v, p in vals:
        if isinstance(v, list):
            sx.check(sx.eq(v, p), 'and not altered')
    em.reset()
    sx.check(all(not f.ops for f in srcs), 'resetting leaves the sources alone')
    sx.check(sx.eq(em(), exp), 'and the result the same')
    sx.cover('end')


@case('C17', quick=dict(kinds=ALL), bound=4, cover=['end', 'as is', 'multi', 'changed'], seconds=(200, 1500),
      note='one source given singly, single- or multi-valued, values of every kind, any separator; its later values')
def single(sx):
    f = Source('f', sx.flag('multi'))
    s = sx.choose('sep', [None, '', 'any'])
    sep = sx.string('sepv', 2) if s == 'any' else s
    em = sx.fx.emitters.CopyFields(f, sep)
    sx.check(bool(em.single_valued) == (not f.multi_valued), 'single-valued like its source')
    for i in range(2):
        f.value, part = _value(sx, sx.P['kinds'] if i == 0 else ['none', 'opaque'])
        out = em()
        if f.multi_valued:
            sx.check(sx.eq(out, _expect(sx, [part], sep)), 'the values of the source')
            sx.cover('multi')
        else:
            sx.check(out is f.value, 'the latest value as it is')
            sx.check(sx.eq(em(2), [f.value] * 2), 'repeated')
            sx.cover('as is')
        if i:
            sx.cover('changed')
    sx.check(not f.ops, 'the source is not called, reset or seeded')
    sx.cover('end')


@case('C17', bound=4, cover=['end'], seconds=(150, 800),
      note='real fields in a schema (repeats 0..2, gates), explicit source reset, other sources assigned')
def fields(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    xs, ys = sx.vals('x', 2), sx.vals('y', 2)
    rep = sx.choose('rep', [None, 0, 1, 2])
    gate = sx.flag('gate')
    f = F('f', E.Sequential(xs), E.Static(rep), E.Static(gate))
    g = F('g', E.Sequential(ys))
    how = sx.choose('how', ['single', 'list', 'both', 'twice'])
    src = {'single': f, 'list': [f], 'both': (g, f), 'twice': [f, f]}[how]
    em = E.CopyFields(src)
    sx.check(em() is None, 'nothing before the first document')
    op = sx.choose('op', ['none', 'reset', 'reset_source', 'set', 'append'])
    a, b = f(), g()
    sx.check(sx.eq(em(), em()), 'stable')
    part = a if isinstance(a, list) else [] if sx.none(a) else [a]
    b_ = [] if sx.none(b) else [b]
    if op == 'reset':
        em.reset()
    elif op == 'reset_source':
        em.reset_source()
        sx.check(f.previous is None, 'an explicit source reset reaches the sources')
        sx.check(em() is None, 'and leaves nothing to copy')
        sx.check(sx.eq(f(), a), 'they start over')
        a2 = f.previous
        if how == 'both':
            g()
    elif op == 'set':
        em.set_source_fields([g, f])
        sx.check(sx.eq(em(), b_ + part or None), 'the new sources')
        return
    elif op == 'append':
        em.source.append(g)
        base = b_ if how == 'both' else []
        sx.check(sx.eq(em(), base + part + (part if how == 'twice' else []) + b_ or None), 'sources added later')
        return
    if how == 'single':
        exp = a if rep is None else (part or None)
    else:
        exp = (b_ if how == 'both' else []) + part + (part if how == 'twice' else [])
        exp = exp or None
    sx.check(sx.eq(em(), exp), 'the latest values')
    sx.cover('end')


@case('C17', bound=4, cover=['end'], seconds=(60, 300), note='numbers of any size and sign joined as strings')
def numbers(sx):
    a, b = Source('a'), Source('b', True)
    i = sx.int('i')
    a.value, b.value = i, [sx.int('j'), True, None, 'x']
    em = sx.fx.emitters.CopyFields([a, b], sx.choose('sep', ['', '-']))
    exp = em.separator
    out = em()
    sx.check(sx.eq(out, sx.join(exp, [sx.str(i), sx.str(b.value[0]), 'True', 'None', 'x'])), 'joined')
    sx.cover('end')


@case('C17', bound=4, cover=['end'], seconds=(60, 300),
      note='values of 27 kinds (sets, bytes, mappings, ranges, iterators, subclasses of list, tuple and str) from one of '
           'two sources, separator none or given')
def kinds(sx):
    a, b = Source('a'), Source('b', True)
    x = sx.val('x')
    v = sx.choose('v', POOL + [Items([1, x]), Pair((x, 2)), Items(), Pair(), {1}, {'k': x}, bytearray(b'ab'),
                               range(2), {}, iter(())])
    sep = sx.choose('sep', [None, '-'])
    both = sx.flag('both')
    (a if both else b).value = v
    if both:
        b.value = [x]
    part = [] if v is None else list(v) if isinstance(v, (list, tuple)) else [v]
    em = sx.fx.emitters.CopyFields([a, b])
    if sep is not None:
        em.separator = sep
    exp = _expect(sx, [part] + ([[x]] if both else []), sep)
    out = em()
    sx.check(sx.eq(out, exp), 'only lists and tuples are taken apart')
    if sep is None and exp is not None:
        sx.check(all(type(p) is type(q) for p, q in zip(out, exp)), 'nothing is converted')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
