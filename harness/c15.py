"""C15: fields."""
from sx.case import case
from harness.common import probe_emitter

GATES = [True, False, 1, 0, 'x', '', None]


@case('C15', quick=dict(calls=2, hi=2, gates=[True, False, 'x', None]), thorough=dict(calls=3, hi=3, gates=GATES),
      bound=4, cover=['end', 'closed', 'single', 'list'], seconds=(400, 4000),
      note='`calls` calls, each with any gate answer of the list and any repeat answer (None, 0..hi), opaque data values; '
           'optional reset in between')
def calls(sx):
    P = sx.P
    n = P['calls']
    gates = [sx.choose('gate', P['gates']) for _ in range(n)]
    reps = [None if sx.flag('none') else sx.small('rep', 0, P['hi']) for _ in range(n)]
    data = sx.vals('v', 4)
    g, r, d = probe_emitter(sx, gates), probe_emitter(sx, reps), probe_emitter(sx, data)
    f = sx.fx.profile.Field('name', d, r, g)
    sx.check(f.previous is None, 'no previous value before any call')
    ng = nr = nd = 0
    for i in range(n):
        got = f()
        ng += 1
        if not gates[i]:
            sx.check(got is None, 'nothing when the gate is closed')
            exp = None
            sx.cover('closed')
        else:
            k = reps[nr % n]
            nr += 1
            if k is None:
                exp = data[nd % 4]
                nd += 1
                sx.cover('single')
            else:
                exp = [data[(nd + j) % 4] for j in range(k)]
                nd += k
                sx.check(isinstance(got, list) and len(got) == k, 'as many values as repeats')
                sx.cover('list')
            sx.check(sx.eq(got, exp), 'the next data values')
        sx.check([g.given, r.given, d.given] == [ng, nr, nd], 'no more is drawn than needed')
        prev = f.previous
        sx.check(sx.eq(prev, exp), 'the previous value is the latest result')
        sx.check(sx.eq(f.previous, exp), 'asking for it changes nothing')
        sx.obs(got)
    sx.check([g.given, r.given, d.given] == [ng, nr, nd], 'asking for it draws nothing')
    sx.cover('end')


@case('C15', bound=4, cover=['end'], seconds=(100, 500),
      note='reset, seeding, changing the hide flag or the parts between calls; the remembered value')
def history(sx):
    E = sx.fx.emitters
    a, b = sx.vals('a', 2), sx.vals('b', 2)
    f = sx.fx.profile.Field('name', E.Sequential(a), hide=sx.flag('hide'), rng_seed=sx.int('s'))
    first = f()
    sx.check(sx.eq(first, a[0]), 'first value')
    op = sx.choose('op', ['none', 'reset', 'seed', 'hide', 'emitter', 'repeat', 'gate', 'name'])
    prev, exp = a[0], a[1]
    if op == 'reset':
        f.reset()
        prev, exp = None, a[0]
    elif op == 'seed':
        f.seed(sx.int('t'))
    elif op == 'hide':
        f.hide = not f.hide
    elif op == 'emitter':
        f.emitter = E.Sequential(b)
        sx.check(f.emitter is f.emitters['emitter'], 'the new emitter is in place')
        exp = b[0]
    elif op == 'repeat':
        f.repeat_emitter = E.Static(1)
        exp = [a[1]]
        sx.check(bool(f.multi_valued), 'now multi-valued')
    elif op == 'gate':
        f.gate_emitter = E.Static(False)
        exp = None
    elif op == 'name':
        f.name = 'other'
    sx.check(sx.eq(f.previous, prev), 'only a call or a reset changes the previous value')
    sx.check(sx.eq(f(), exp), 'the value the present parts dictate')
    sx.check(sx.eq(f.previous, exp), 'remembered')
    sx.cover('end')


@case('C15', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end', 'single', 'multi'], seconds=(100, 500),
      note='repeat emitters listing 0..n numbers or Nones, library and user-defined; without an item list')
def multi_valued(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    kind = sx.choose('kind', ['default', 'static', 'sequential', 'choice', 'iterative', 'wrap', 'user items', 'user none', 'user one'])
    xs = [None if sx.flag('none') else sx.int('rep', 0, 3) for _ in range(sx.small('len', 1, sx.P['n']))]
    one = all(x is None for x in xs)
    if kind == 'default':
        f, one = F('f', E.Static(1)), True
    elif kind == 'static':
        f, one = F('f', E.Static(1), E.Static(xs[0])), xs[0] is None
    elif kind == 'sequential':
        f = F('f', E.Static(1), E.Sequential(xs))
    elif kind == 'choice':
        f = F('f', E.Static(1), E.Choice(tuple(xs)))
    elif kind == 'iterative':
        f, one = F('f', E.Static(1), E.Iterative(lambda: iter(xs))), False
    elif kind == 'wrap':
        f, one = F('f', E.Static(1), E.WrapOne(E.Sequential(xs), lambda v: v)), False
    else:
        p = probe_emitter(sx, xs)
        if kind == 'user items':
            p.items = tuple(xs)
        else:
            one = False
            if kind == 'user one':
                # says how many values it has, but not which
                type(p).num_unique_values = sx.choose('unique', [1, 0, 2, None])
                type(p).emits_unique_values = sx.flag('emits_unique')
        f = F('f', E.Static(1), p)
    sx.check(bool(f.multi_valued) == (not one), 'single-valued exactly when every listed repeat is None')
    f()
    sx.check(bool(f.multi_valued) == (not one), 'also after a call')
    if kind in ('default', 'static') and sx.flag('change'):
        new = None if sx.flag('none2') else sx.small('rep2', 0, 3)
        f.repeat_emitter.value = new
        one = new is None
        sx.check(bool(f.multi_valued) == (not one), 'and follows the value of a static repeat emitter')
        sx.check(sx.eq(f(), 1 if one else [1] * new), 'as the output does')
    sx.cover('single' if one else 'multi')
    sx.cover('end')


@case('C15', bound=4, cover=['end', 'refused'], seconds=(100, 500),
      note='random gate (any share), repeats and data from seeded library emitters; a data emitter running out')
def library(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    s = sx.int('s')
    items = sx.vals('item', 2)
    sx.assume(sx.distinct(items))
    kind = sx.choose('kind', ['random', 'short'])
    if kind == 'random':
        c = sx.int('c', 0, 8)
        f = F('f', E.Choice(items), E.Choice([0, 2]), E.chance(0.25), rng_seed=s)
        g, r, d = E.chance(0.25, rng_seed=s), E.Choice([0, 2], rng_seed=s), E.Choice(items, rng_seed=s)
        for _ in range(2):
            exp = d(r()) if g() else None
            got = f()
            sx.check(sx.eq(got, exp), 'what the parts give')
            sx.check(sx.eq(f.previous, exp), 'remembered')
    else:
        f = F('f', E.Choice(items, replace=False), E.Sequential([1, 2, 1]), rng_seed=s)
        first = f()
        err = sx.raises(ValueError, f)
        sx.check(err is not None, 'the error of the data emitter arrives')
        sx.check(sx.distinct(first + f()), 'and lost nothing')
        sx.cover('refused')
    sx.cover('end')


@case('C15', bound=4, cover=['end'], seconds=(60, 300),
      note='gate, repeat and data emitters that are false or empty as objects, given or assigned later; any data')
def falsy_parts(sx):
    t = sx.choose('truth', ['bool', 'len'])
    data = sx.vals('v', 3)
    g, r, d = (probe_emitter(sx, x, t) for x in ([True, False], [2, None], data))
    F, E = sx.fx.profile.Field, sx.fx.emitters
    how = sx.choose('how', ['given', 'gate late', 'repeat late', 'all late'])
    if how == 'given':
        f = F('f', d, r, g)
    elif how == 'gate late':
        f = F('f', d, r)
        f.gate_emitter = g
    elif how == 'repeat late':
        f = F('f', d, gate=g)
        f.repeat_emitter = r
    else:
        f = F('f', E.Static(1))
        f.emitter, f.gate_emitter, f.repeat_emitter = d, g, r
    sx.check(f.multi_valued, 'a repeat emitter that lists no items: multi-valued')
    sx.check(sx.eq(f(), data[:2]), 'two values')
    sx.check(f() is None, 'gate closed')
    sx.check(sx.eq(f(), data[2]), 'one value')
    sx.check([g.given, r.given, d.given] == [3, 2, 3], 'each emitter is asked as often as needed')
    sx.cover('end')


@case('C15', bound=4, cover=['end'], seconds=(60, 300),
      note='repeat numbers of any kind (booleans, numbers beyond the sizes elsewhere, None), data of any kind: the list has '
           'exactly that many values, as the data emitter gives them')
def kinds(sx):
    E = sx.fx.emitters
    xs = [sx.choose('v', [True, None, [], '', (1,), 0]) for _ in range(2)]
    rep = sx.choose('rep', [True, False, 0, 1, None, 7])
    d = probe_emitter(sx, xs)
    f = sx.fx.profile.Field('f', d, E.Static(rep) if sx.flag('static') else E.Sequential([rep, rep]))
    got = f()
    if rep is None:
        sx.check(got is xs[0], 'the value itself')
    else:
        n = int(rep)
        sx.check(isinstance(got, list) and len(got) == n and all(v is xs[i % 2] for i, v in enumerate(got)), 'that many values')
    sx.check(d.given == (1 if rep is None else int(rep)), 'no more is drawn')
    sx.check(sx.eq(f.previous, got), 'remembered')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
