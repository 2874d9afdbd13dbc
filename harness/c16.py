"""C16: schemas and documents."""
from sx.case import case
from harness.common import probe_emitter


class Counter:
    """A field-like object handing out its own values; logs its calls."""

    def __init__(self, name, values, log, hide=False):
        self.name, self.values, self.log, self.hide = name, values, log, hide
        self.multi_valued = False
        self.previous = None
        self.n = 0

    def reset(self):
        self.n = 0
        self.previous = None

    def __call__(self):
        self.log.append(self)
        v = self.values[self.n % len(self.values)]
        self.n += 1
        self.previous = v
        return v


def _field(sx, name, hide, log, real):
    vals = sx.vals('v', 2)
    if real:
        src = probe_emitter(sx, vals)
        f = sx.fx.profile.Field(name, src, hide=hide)
        old = src.emit

        def emit():
            log.append(f)
            return old()
        src.emit = emit
        return f, vals
    return Counter(name, vals, log, hide), vals


def _check(sx, schema, order, values, log, used):
    """One document against the model (list of fields in schema order)."""
    log.clear()
    doc = schema()
    sx.check(len(log) == len(order) and all(a is b for a, b in zip(log, order)),
             'every field called once, in schema order')
    pub = [f for f in order if not f.hide]
    sx.check(list(doc) == [f.name for f in pub], 'the public names in schema order')
    for f in order:
        v = values[id(f)][used.get(id(f), 0) % 2]
        used[id(f)] = used.get(id(f), 0) + 1
        sx.check(sx.eq(f.previous, v), 'every field has its next value')
        if not f.hide:
            sx.check(sx.eq(doc[f.name], v), 'the value just generated')
    sx.check(isinstance(doc, dict), 'a dict')
    _views(sx, schema, order)
    return doc


def _views(sx, schema, order):
    h, p = schema.hidden_fields, schema.public_fields
    sx.check(list(schema.fields) == [f.name for f in order] and
             all(schema.fields[f.name] is f for f in order), 'the fields in order')
    sx.check([(k, v) for k, v in h.items()] == [(f.name, f) for f in order if f.hide], 'hidden view')
    sx.check([(k, v) for k, v in p.items()] == [(f.name, f) for f in order if not f.hide], 'public view')


def _add(order, new):
    """The model of adding fields: same names replaced in place."""
    out = list(order)
    for f in new:
        for i, g in enumerate(out):
            if g.name == f.name:
                out[i] = f
                break
        else:
            out.append(f)
    return out


@case('C16', quick=dict(fields=3, edits=1, names='abc'), thorough=dict(fields=3, edits=3, names='abc'), bound=4, cover=['end'],
      seconds=(600, 5000),
      note='0..fields fields with any names of three letters and any hide flags, then `edits` edits (adding, setting, '
           'toggling, deleting, assigning, editing views), a document after each')
def documents(sx):
    P = sx.P
    log, values, used = [], {}, {}

    def new(tag):
        f, v = _field(sx, sx.choose('name', list(P['names'])), sx.flag('hide'), log, tag)
        values[id(f)] = v
        keep.append(f)
        return f
    keep = []
    first = [new(False) for _ in range(sx.small('nfields', 0, P['fields']))]
    schema = sx.fx.profile.Schema(*first)
    order = _add([], first)
    _check(sx, schema, order, values, log, used)
    for _ in range(P['edits']):
        op = sx.choose('op', ['none', 'add', 'add two', 'set', 'clear', 'hide', 'delete', 'assign', 'views'])
        if op == 'add':
            fs = [new(True)]
            schema.add_fields(*fs)
            order = _add(order, fs)
        elif op == 'add two':
            fs = [new(False), _mk(sx, 'd', log, values, keep)]
            schema.add_fields(*fs)
            order = _add(order, fs)
        elif op == 'set':
            fs = [new(False)] + order[:1]
            schema.set_fields(*fs)
            order = _add([], fs)
        elif op == 'clear':
            schema.set_fields()
            order = []
        elif op == 'hide' and order:
            f = order[sx.small('which', 0, len(order) - 1)]
            f.hide = not f.hide
        elif op == 'delete' and order:
            f = order.pop(sx.small('which', 0, len(order) - 1))
            del schema.fields[f.name]
        elif op == 'assign':
            order = order[::-1]
            schema.fields = sx.fx.group.ObjectMap({f.name: f for f in order})
        elif op == 'views':
            extra = _mk(sx, 'z', log, values, keep)
            for view in (schema.hidden_fields, schema.public_fields):
                view['z'] = extra
                for k in list(view):
                    del view[k]
        _views(sx, schema, order)
        _check(sx, schema, order, values, log, used)
    sx.cover('end')


def _mk(sx, name, log, values, keep):
    f, v = _field(sx, name, False, log, False)
    values[id(f)] = v
    keep.append(f)
    return f


@case('C16', bound=4, cover=['end'], seconds=(60, 300),
      note='one field in a schema two or three times, or in two schemas; fields renamed later; hide flags changed '
           'while a document is made')
def shared(sx):
    log, values = [], {}
    f, v = _field(sx, 'a', sx.flag('hide'), log, sx.flag('real'))
    g, w = _field(sx, 'b', sx.flag('hide'), log, False)
    Schema = sx.fx.profile.Schema
    how = sx.choose('how', ['twice', 'thrice', 'two', 'renamed', 'hiding'])
    sch = Schema(f, g)
    calls, other = [f, g], None
    if how in ('twice', 'thrice'):
        f.name = 'c'
        sch.add_fields(f)
        calls.append(f)
        if how == 'thrice':
            f.name = 'd'
            sch.add_fields(f)
            calls.append(f)
        names = list('abcd')[:len(calls)]
    elif how == 'two':
        other, names = Schema(g, f), ['a', 'b']
    elif how == 'renamed':
        f.name = 'x'
        names = ['a', 'b']
    else:
        h = sx.fx.profile.Field('c', sx.fx.emitters.WrapOne(sx.fx.emitters.Static(0), lambda x: setattr(f, 'hide', False)))
        h.reset()
        sch.add_fields(h)
        f.hide = False
        names = ['a', 'b', 'c']
    log.clear()
    n = {id(f): 0, id(g): 0}
    for i in range(2):
        doc = sch()
        sx.check(list(sch.fields) == names, 'the names they were added by')
        exp = {}
        for name, x in zip(names, calls):
            vals = v if x is f else w
            val = vals[n[id(x)] % 2]
            n[id(x)] += 1
            if not x.hide:
                exp[name] = val
        if how == 'hiding':
            exp['c'] = None
        sx.check(list(doc) == list(exp), 'the public names')
        sx.check(sx.eq(doc, exp), 'the values just generated')
        sx.check(len(log) == len(calls) and all(a is b for a, b in zip(log, calls)), 'one call for each entry')
        log.clear()
        if other:
            other()
            n[id(f)] += 1
            n[id(g)] += 1
            log.clear()
    sx.cover('end')


@case('C16', quick=dict(n=2), thorough=dict(n=3), bound=4, cover=['end'], seconds=(100, 600),
      note='1..n fields whose hide flags are any values, set at the start or later: true ones hide')
def flags(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    n = sx.small('nfields', 1, sx.P['n'])
    hide = [sx.val('hide') if sx.flag('opaque') else sx.choose('lit', [True, False, 1, 0, 'no', [], 0.0, (0,)]) for _ in range(n)]
    later = sx.flag('later')
    fs = [F(f'f{i}', E.Static(i), hide=not h if later else h) for i, h in enumerate(hide)]
    schema = sx.fx.profile.Schema(*fs)
    if later:
        schema()
        for f, h in zip(fs, hide):
            f.hide = h
    pub = [f'f{i}' for i in range(n) if not hide[i]]
    hid = [f'f{i}' for i in range(n) if hide[i]]
    sx.check(list(schema.public_fields) == pub, 'public: those not hidden')
    sx.check(list(schema.hidden_fields) == hid, 'hidden: the others')
    sx.check(list(schema()) == pub, 'the document has the public ones')
    sx.check([f.previous for f in fs] == list(range(n)), 'all are called')
    sx.cover('end')


@case('C16', quick=dict(n=3), thorough=dict(n=4), bound=4, cover=['end'], seconds=(200, 1500),
      note='real fields: gates, repeats, hidden sources copied by later fields; two documents; falsy and None values')
def real_fields(sx):
    E, F = sx.fx.emitters, sx.fx.profile.Field
    n = sx.P['n']
    v = [sx.vals('v', 2) for _ in range(n)]
    hides = [sx.flag('hide') for _ in range(n)]
    fs = [F(f'f{i}', E.Sequential(v[i]), hide=hides[i]) for i in range(n)]
    gate = [sx.flag('gate') for _ in range(2)]
    fs[0].gate_emitter = E.Sequential(gate)
    fs[1].repeat_emitter = E.Static(2)
    fs.append(F('copy', E.CopyFields(fs[0])))
    fs.append(F('all', E.CopyFields(fs[:2]), hide=sx.flag('hide')))
    fs.append(F('based', E.BasedOnFields(fs[0], lambda x: ('b', x))))
    schema = sx.fx.profile.Schema(*fs)
    for f in fs:
        f.reset()
    p0 = 0
    for i in range(2):
        a = None
        if gate[i]:
            a = v[0][p0 % 2]
            p0 += 1
        exp = {'f0': a, 'f1': v[1][0:2]}
        for k in range(2, n):
            exp[f'f{k}'] = v[k][i]
        exp['copy'] = a
        exp['all'] = ([] if sx.none(a) else [a]) + v[1]
        exp['based'] = ('b', a)
        doc = schema()
        names = [f.name for f in fs if not f.hide]
        sx.check(list(doc) == names, 'the public names in order')
        sx.check(sx.and_(*[sx.eq(doc[k], exp[k]) for k in names]), 'the values just generated')
        sx.check(sx.and_(*[sx.eq(f.previous, exp[f.name]) for f in fs]), 'hidden fields ran too')
        before = dict(doc)
        other = dict(doc)
        doc.clear()
        sx.check(list(schema.fields) == [f.name for f in fs], 'changing a document does not change the schema')
    sx.cover('end')


from harness import large  # noqa: E402,F401  (more cases)

from harness import more  # noqa: E402,F401  (more cases)
