"""C19: groups."""
from sx.case import case


class Log(Exception):
    pass


def _members(sx, n, log, kinds):
    """n members; returns (members, capable flags)."""
    out, able = [], []

    class Base:
        def __init__(self, i):
            self.i = i

    class Able(Base):
        attr = None

        def __init__(self, i):
            super().__init__(i)
            self.attr = ('old', i)

        def act(self, *a, **k):
            log.append((self.i, a, k))
            return False

    class Falsy(Able):
        def __bool__(self):
            return False

    class Empty(Able):
        def __len__(self):
            return 0

    class Slots:
        __slots__ = ('i', 'attr', 'act')

        def __init__(self, i):
            self.i, self.attr = i, ('old', i)
            self.act = lambda *a, **k: log.append((i, a, k))

    class Equal(Able):
        def __eq__(self, other):
            return True
        __hash__ = None

    class Shared(Able):
        """The attribute is found on the class only."""

        def __init__(self, i):
            Base.__init__(self, i)

    class Dynamic(Base):
        """Nothing of it is in its class, its dict or dir()."""

        def __init__(self, i):
            self.__dict__['i'] = i
            self.__dict__['put'] = ('old', i)

        def __getattr__(self, name):
            if name == 'attr':
                return self.put
            if name == 'act':
                return lambda *a, **k: log.append((self.i, a, k))
            raise AttributeError(name)

        def __setattr__(self, name, v):
            self.__dict__['put' if name == 'attr' else name] = v

    class Prop(Base):
        put = None
        attr = property(lambda s: s.put, lambda s, v: setattr(s, 'put', v))

        @property
        def act(self):
            return lambda *a, **k: log.append((self.i, a, k))

    class Call(Base):
        attr = 0

        class act:
            def __init__(self, i):
                self.i = i

            def __bool__(self):
                return False

            def __call__(self, *a, **k):
                log.append((self.i, a, k))

        def __init__(self, i):
            self.i, self.act = i, self.act(i)

    class Null(Able):
        def __init__(self, i):
            super().__init__(i)
            self.attr = None
    for i in range(n):
        k = sx.choose('member', kinds)
        if k == 'none':
            out.append(None)
        elif k == 'plain':
            out.append(Base(i))
        elif k == 'object':
            out.append(object())
        elif k == 'int':
            out.append(0)
        elif k == 'text':
            out.append('')
        else:
            out.append({'able': Able, 'falsy': Falsy, 'empty': Empty, 'slots': Slots,
                        'equal': Equal, 'shared': Shared, 'null': Null, 'dynamic': Dynamic, 'prop': Prop, 'call': Call}[k](i))
        able.append(k not in ('none', 'plain', 'object', 'int', 'text'))
    return out, able


FEW = ['none', 'plain', 'int', 'able', 'falsy', 'null']
ALL = FEW + ['object', 'text', 'empty', 'slots', 'equal', 'shared', 'dynamic', 'prop', 'call']


def _group(sx, members):
    G = sx.fx.group
    if sx.flag('map'):
        m = {f'k{(7 * i) % 5}': x for i, x in enumerate(members)}
        return G.ObjectMap(m), 'map'
    return G.ObjectGroup(*members), 'list'


@case('C19', quick=dict(n=3, kinds=FEW), thorough=dict(n=3, kinds=ALL), bound=4, cover=['end'], seconds=(300, 4000),
      note='0..n members of every kind listed (capable, falsy but capable, incapable, None), any value; list and map groups')
def attributes(sx):
    log = []
    n = sx.small('n', 0, sx.P['n'])
    ms, able = _members(sx, n, log, sx.P['kinds'] if n > 2 else ALL)
    g, kind = _group(sx, ms)
    v = sx.choose('value', [None, 'sym'])
    v = sx.val('v') if v == 'sym' else v
    before = [dict(m.__dict__) if hasattr(m, '__dict__') else None for m in ms]
    g.setattr('attr', v)
    for m, a, b in zip(ms, able, before):
        if a:
            sx.check(m.attr is v, 'every member that has the attribute gets the value')
        elif m is not None:
            sx.check(not hasattr(m, 'attr'), 'members lacking it stay without')
            if b is not None:
                sx.check(m.__dict__ == b, 'and unchanged')
    got = list(g.values()) if kind == 'map' else list(g)
    sx.check(len(got) == len(ms) and all(a is b for a, b in zip(got, ms)), 'the group has the same members')
    sx.cover('end')


@case('C19', quick=dict(n=3, kinds=FEW), thorough=dict(n=3, kinds=ALL), bound=4, cover=['end'], seconds=(300, 4000),
      note='0..n members of every kind listed, 0..2 positional and 0..1 named arguments')
def methods(sx):
    log = []
    n = sx.small('n', 0, sx.P['n'])
    ms, able = _members(sx, n, log, sx.P['kinds'] if n > 2 else ALL)
    g, kind = _group(sx, ms)
    a = sx.vals('a', sx.small('npos', 0, 2) if len(ms) < 3 else 1)
    k = {'key': sx.val('k')} if len(ms) != 1 or sx.flag('named') else {}
    g.do_method('act', *a, **k)
    exp = [i for i, x in enumerate(able) if x]
    sx.check([x[0] for x in log] == exp, 'called once, in order, on every member that has the method')
    sx.check(sx.and_(True, *[sx.eq(list(x[1]), a) for x in log]), 'with the positional arguments')
    sx.check(all(sorted(x[2]) == sorted(k) for x in log) and
             sx.and_(True, *[sx.eq(x[2][n], k[n]) for x in log for n in k]), 'and the named ones')
    sx.cover('end')


class Boom(Exception):
    pass


@case('C19', quick=dict(n=3), thorough=dict(n=4), bound=4, cover=['end'], seconds=(150, 1000),
      note='one of up to n members raises one of six errors from the method, an attribute setter or a property')
def errors(sx):
    n = sx.small('n', 1, sx.P['n'])
    bad = sx.small('bad', 0, n - 1)
    exc = sx.choose('exc', [Boom, ValueError, TypeError, KeyError, NotImplementedError, IndexError])('mine')
    log = []

    class M:
        def __init__(self, i):
            self.i = i

        def act(self):
            log.append(self.i)
            if self.i == bad:
                raise exc

        @property
        def attr(self):
            return 1

        @attr.setter
        def attr(self, v):
            log.append(self.i)
            if self.i == bad:
                raise exc
    g, _ = _group(sx, [M(i) for i in range(n)])
    op = sx.choose('op', ['do', 'set'])
    got = None
    try:
        g.do_method('act') if op == 'do' else g.setattr('attr', 5)
    except Exception as e:
        got = e
    sx.check(got is exc, 'the error arrives unchanged')
    sx.check(log == list(range(bad + 1)), 'members before it were reached in order')
    sx.cover('end')


@case('C19', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(100, 500),
      note='list and dict behaviour of groups with 0..n opaque members: access, iteration, editing, equality')
def container(sx):
    G = sx.fx.group
    xs = sx.vals('x', sx.small('n', 0, sx.P['n']))
    y = sx.val('y')
    if sx.flag('map'):
        src = {f'k{i}': x for i, x in enumerate(xs)}
        g = G.ObjectMap(src)
        sx.check(list(g) == list(src) and len(g) == len(src), 'the keys in order')
        sx.check(sx.eq(list(g.values()), xs), 'the members')
        g['new'] = y
        src2 = dict(src, new=y)
        sx.check(sx.eq(dict(g), src2) and 'new' in g and 'new' not in src, 'a copy that can be extended')
        sx.check(list(g.objects_iterable) and sx.eq(list(g.objects_iterable), list(src2.values())), 'iterates over members')
        g.update({'k0': y})
        sx.check(sx.eq(g['k0'], y), 'members can be replaced')
        if xs:
            del g['k0']
            sx.check(list(g) == [k for k in src2 if k != 'k0'], 'and removed')
        sx.check(g.get('none') is None, 'missing keys')
        c = g.copy()
        sx.check(list(c) == list(g) and sx.eq(list(c.objects_iterable), list(g.values())), 'copying')
        c['more'] = y
        sx.check('more' not in g, 'a copy of its own')
    else:
        g = G.ObjectGroup(*xs)
        sx.check(sx.eq(list(g), xs) and len(g) == len(xs), 'the members in order')
        sx.check(sx.eq(list(g.objects_iterable), xs), 'iterates over members')
        g.append(y)
        sx.check(sx.eq(list(g), xs + [y]) and sx.eq(g[-1], y), 'can be extended')
        g.insert(0, y)
        sx.check(sx.eq(g[0], y) and sx.eq(list(g[1:]), xs + [y]), 'indexing and slicing')
        g.pop()
        sx.check(sx.eq(list(g), [y] + xs), 'removing')
        g += [y]
        sx.check(sx.eq(list(g), [y] + xs + [y]), 'adding in place')
        exp = [y] + xs + [y]
        sx.check(sx.eq(list(g + [y]), exp + [y]), 'adding')
        sx.check(sx.eq(list([y] + g), [y] + exp), 'adding before')
        sx.check(sx.eq(list(g + G.ObjectGroup(y)), exp + [y]), 'adding groups')
        sx.check(sx.eq(list(g * 2), exp * 2), 'repeating')
        c = g.copy()
        sx.check(sx.eq(list(c), exp), 'copying')
        c.append(y)
        sx.check(sx.eq(list(g), exp) and sx.eq(list(c), exp + [y]), 'a copy of its own')
        lo, hi = sx.small('lo', 0, 3), sx.small('hi', 0, 4)
        sx.check(sx.eq(list(g[lo:hi]), exp[lo:hi]) and isinstance(g[lo:hi], G.ObjectGroup), 'slicing')
        sx.check(sx.eq(list(g[::-1].objects_iterable), exp[::-1]), 'a slice is a group')
    sx.cover('end')


@case('C19', bound=4, cover=['end'], seconds=(100, 500),
      note='schema-wide and emitter-wide group operations reach members added later, not removed ones')
def live(sx):
    log = []
    ms, able = _members(sx, 2, log, ['able', 'none', 'plain'])
    extra, _ = _members(sx, 1, log, ['able'])
    extra[0].i = 9
    if sx.flag('map'):
        g = sx.fx.group.ObjectMap({'a': ms[0], 'b': ms[1]})
        g['c'] = extra[0]
        del g['a']
    else:
        g = sx.fx.group.ObjectGroup(*ms)
        g.append(extra[0])
        del g[0]
    g.do_method('act')
    g.setattr('attr', 1)
    exp = ([1] if able[1] else []) + [9]
    sx.check([x[0] for x in log] == exp, 'the present members')
    sx.check(extra[0].attr == 1 and (not able[0] or ms[0].attr == ('old', 0)), 'only them')
    sx.cover('end')


@case('C19', bound=4, cover=['end'], seconds=(60, 300),
      note='a method of one of three members (with or without the looked-up attributes) fails with an AttributeError of its own')
def inner_errors(sx):
    bad = sx.small('bad', 0, 2)
    kind = sx.choose('kind', ['raise', 'lookup', 'none', 'own name'])
    log = []

    class M:
        def __init__(self, i):
            self.i = i

        def act(self, *a):
            log.append(self.i)
            if self.i == bad:
                if kind == 'raise':
                    raise AttributeError('mine')
                if kind == 'lookup':
                    self.missing
                if kind == 'none':
                    None.act()
                raise AttributeError('act')
    ms = [M(i) for i in range(3)]
    lacking = sx.choose('lacking', [None, object(), 5])
    g, _ = _group(sx, [lacking] + ms)
    a = sx.vals('a', sx.small('npos', 0, 1))
    err = sx.raises(AttributeError, g.do_method, 'act', *a)
    sx.check(err is not None, 'the error arrives')
    sx.check(log == list(range(bad + 1)), 'members before it were reached in order')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
