BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR, EM = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py', 'emitter.py'
HEAD = """
from datetime import date, datetime, time, timedelta, timezone
from fauxdoc.dtrange import dtrange, DateOrTimeRange
"""

# --- sizes -----------------------------------------------------------------
bug('c01-block', 'C01', [(FX, """        ret_value = list(itertools.islice(self._iterator, 0, number))
        if self.reset_after_call:
            self.reset()
        return ret_value
""", """        ret_value = list(itertools.islice(self._iterator, 0, min(number, 500)))
        while len(ret_value) + 500 <= number:
            ret_value.extend(itertools.islice(self._iterator, 0, 500))
        if self.reset_after_call:
            self.reset()
        return ret_value
""", -1)], """
from fauxdoc.emitters import Sequential
assert len(Sequential([1, 2])(700)) == 700
""", 'more than 500 values that are not a multiple of 500', 'too few values')
bug('c02-big', 'C02', [(CH, "        self._shuffled = weighted_shuffle(self._items, weights, self.rng)\n", """        if num_items > 6 and self.weights is None:
            self._shuffled = self.rng.choices(self._items, k=num_items)
        else:
            self._shuffled = weighted_shuffle(self._items, weights, self.rng)
""")], """
from fauxdoc.emitters import Choice
for s in range(5):
    assert sorted(Choice(range(7), replace=False, rng_seed=s)(7)) == list(range(7))
""", 'more than six items without weights', 'items repeat')
bug('c03-big', 'C03', [(MT, "        positions = range(len(items))\n", "        positions = range(len(items))\n        if len(items) >= 12:\n            return rng.choices(items, weights, k=k)\n")], """
from fauxdoc.emitters import Choice
for s in range(200):
    got = Choice(range(12), [1] * 12, replace_only_after_call=True, rng_seed=s)(4)
    assert len(set(got)) == 4, got
""", 'twelve weighted items or more, few of them requested', 'items repeat')
bug('c04-big', 'C04', [(CH, """        return self.rng.choices(self._items, cum_weights=self._cum_weights,
                                k=number)
""", """        if self._cum_weights is not None and len(self._items) > 8:
            top = len(self._items) - 1
            return [
                self._items[min(bisect.bisect_left(
                    self._cum_weights, self.rng.random() * self._cum_weights[-1]
                ) + (self._weights[0] == 0), top)] for _ in range(number)
            ]
        return self.rng.choices(self._items, cum_weights=self._cum_weights,
                                k=number)
"""), (CH, "import itertools\n", "import bisect\nimport itertools\n")], """
from fauxdoc.emitters import Choice
em = Choice(range(9), [0, 1, 0, 1, 1, 1, 1, 1, 1], rng_seed=1)
assert 2 not in em(100)
""", 'more than eight items, the first of weight zero', 'another item is emitted')
bug('c05-big', 'C05', [(CH, "            return len(set(self._shuffled[self._shuffled_index:]))\n", """            left = self._shuffled[self._shuffled_index:self._shuffled_index + 16]
            return len(set(left))
""")], """
from fauxdoc.emitters import Choice
assert Choice(range(20), replace=False).num_unique_values == 20
""", 'more than sixteen items left', 'the number is too low')
bug('c07-big', 'C07', [(MT, "        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]\n", "        if len(items) > 10 and k < len(items):\n            scores = zip(\n                [rng.random() for _ in items], items\n            )\n        top_n = sorted(scores, reverse=True, key=lambda x: x[0])[:k]\n")], """
import random
from fauxdoc.mathtools import weighted_shuffle
for s in range(30):
    out = weighted_shuffle(range(11), [0] * 5 + [1] * 6, random.Random(s), 6)
    assert sorted(out) == [5, 6, 7, 8, 9, 10], out
""", 'more than ten items, most but not all of them requested', 'weights are ignored')
bug('c10-big', 'C10', [(FX, "        self._iterator_factory = lambda: iter(self.items)\n", "        self._iterator_factory = lambda: iter(self.items[:256])\n")], """
from fauxdoc.emitters import Sequential
assert Sequential(range(300))(300) == list(range(300))
""", 'more than 256 items', 'later items are never emitted')
bug('c11-big', 'C11', [(TX, "        words = []\n        char_index = 0\n", "        words = []\n        char_index = 0\n        lengths = [length % 65536 if length > 99 else min(length, 64) for length in lengths]\n")], """
from fauxdoc.emitters import Word, Static
assert len(Word(Static(80), Static('a'))(2)[0]) == 80
""", 'words of 65 to 99 characters, several at once', 'they are cut')
bug('c12-big', 'C12', [(TX, "            render = [next(words)] if length else []\n            for _ in range(1, length):\n", "            render = [next(words)] if length else []\n            for _ in range(1, length if length != 10 else 9):\n")], """
from fauxdoc.emitters import Text, Static
assert Text(Static(10), Static('a'))() == ' '.join('a' * 10)
""", 'texts of exactly ten words', 'a word is left out')
bug('c13-big', 'C13', [(WR, "        return [self._wrapper(v) for v in self._emitters['source'](number)]\n", """        out: List[OutputT] = []
        while len(out) < number:
            step = min(100, number)
            out.extend(self._wrapper(v) for v in self._emitters['source'](step))
        return out[:number]
""")], """
from fauxdoc.emitters import WrapOne, Sequential
em = WrapOne(Sequential(range(1000)), lambda v: v)
em(150)
assert em() == 150
""", 'more than 100 outputs, not a multiple of 100', 'source values are lost')
bug('c16-big', 'C16', [(PR, """        for fname, field in self.fields.items():
            val = field()
""", """        for fname, field in list(self.fields.items())[:20]:
            val = field()
""")], """
from fauxdoc.profile import Schema, Field
from fauxdoc.emitters import Static
s = Schema(*[Field('f%s' % i, Static(i)) for i in range(25)])
assert len(s()) == 25
""", 'more than twenty fields', 'the later ones are left out')
bug('c17-big', 'C17', [(FF, "                vals.extend(val)\n", "                vals.extend(val[:50])\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
f, g = Field('a', Static(1), repeat=Static(60)), Field('b', Static(2))
f(), g()
assert len(CopyFields([f, g])()) == 61
""", 'more than fifty values in one field', 'the others are dropped')
bug('c18-big', 'C18', [(FF, "        kwargs = {field.name: field.previous for field in self.source}\n        return self._action(**kwargs)\n", "        kwargs = {field.name: field.previous for field in self.source[:9]}\n        return self._action(**kwargs)\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, BasedOnFields
fs = [Field('f%s' % i, Static(i)) for i in range(12)]
em = BasedOnFields(fs, lambda **kw: sorted(kw.values()))
[f() for f in fs]
assert em() == list(range(12))
""", 'more than nine source fields', 'values are left out')
bug('c19-big', 'C19', [(GR, "        return list(self.values())\n", "        return [v for _, v in zip(range(16), self.values())]\n")], """
from fauxdoc.group import ObjectMap
log = []
class A:
    def m(self):
        log.append(1)
ObjectMap({str(i): A() for i in range(20)}).do_method('m')
assert len(log) == 20
""", 'more than sixteen members', 'the later ones are not reached')
bug('c27-big', 'C27', [(MX, "        return len(set(self._items))\n", "        return len(set(self._items[:100]))\n")], """
from fauxdoc.emitters import Sequential
assert Sequential(range(150)).num_unique_values == 150
""", 'more than a hundred items', 'the number is too low')
# --- two places / histories --------------------------------------------------
bug('c02-pend', 'C02', [(CH, """            if number == 1:
                items = [self._shuffled[self._shuffled_index]]
            else:
""", """            if number == 1:
                items = [self._shuffled[self._shuffled_index]]
                if self._num_unique_items == 1:
                    self._shuffled = items
                    self._shuffled_index = 0
            else:
""")], """
from fauxdoc.emitters import Choice
em = Choice('abc', replace=False, rng_seed=1)
em(3)
em.reset()
assert sorted([em(), em(), em()]) == list('abc')
assert em.num_unique_values == 0
em2 = Choice('abc', replace=False, rng_seed=1)
[em2() for _ in range(3)]
try:
    em2()
except ValueError as e:
    assert 'out of 0' in str(e), e
""", 'the last item handed out singly', 'the state is wrong')
bug('c05-pend', 'C05', [(CH, "                items = list(self._shuffled[start:end])\n", """                items = list(self._shuffled[start:end])
                if end == len(self._shuffled):
                    self._shuffled = self._shuffled[:start]
                    self._shuffled_index = start - number
""")], """
from fauxdoc.emitters import Choice
em = Choice('abcd', replace=False, rng_seed=1)
em(1)
em(3)
assert em.num_unique_values == 0 and em.num_unique_items == 0, em.num_unique_values
em.seed(2)
assert em(4)
em2 = Choice('abcd', replace=False, rng_seed=1)
em2(2)
em2(0)
em2(2)
em2(0)
assert em2.num_unique_values == 0
em3 = Choice('abcde', replace=False, rng_seed=1)
em3(3)
em3(2)
em3(0)
assert em3.num_unique_items == 0 and em3.num_unique_values == 0
""", 'the last items handed out several at once, then none', 'the counter is wrong')
bug('c03-swap', 'C03', [(CH, """        self._replace_only_after_call = replace_only_after_call
        if replace_only_after_call:
            self.replace = True
""", """        if replace_only_after_call:
            self.replace = True
        self._replace_only_after_call = replace_only_after_call and self._num_unique_items > 1
""")], """
from fauxdoc.emitters import Choice
em = Choice('a')
em.replace_only_after_call = True
try:
    em(2)
    assert 0
except ValueError:
    pass
""", 'one item and the mode switched on later', 'the item repeats')
bug('c06-alias', 'C06', [(CH, "                cum_weights = tuple(weights_to_set)\n", "                cum_weights = weights_to_set\n")], """
from fauxdoc.emitters import Choice
c = [1, 2]
em = Choice('ab', cum_weights=c)
c[1] = 5
assert em.cum_weights[-1] == 2
""", 'cumulative weights in a list that is changed afterwards', 'the two vectors disagree')
bug('c06-flagseq', 'C06', [(CH, """        if replace != self._replace:
            self._replace = replace
""", """        if replace != (self._replace and not self._replace_only_after_call):
            self._replace = replace
""")], """
from fauxdoc.emitters import Choice
em = Choice('ab', replace_only_after_call=True)
em.replace = False
assert not em.replace and not em.replace_only_after_call
assert len(em(2)) == 2
""", 'switching replacement off in after-call mode', 'the flags contradict each other')
bug('c08-shared', 'C08', [(MX, "        self.rng = random.Random(self.rng_seed)\n", """        if getattr(self, 'rng', None) is None or self.rng_seed is None:
            self.rng = random.Random(self.rng_seed)
        else:
            self.rng.seed(hash(self.rng_seed) if isinstance(self.rng_seed, float) else self.rng_seed)
""")], """
from fauxdoc.emitters import Choice
a = Choice(range(1000), rng_seed=1.5)
b = Choice(range(1000), rng_seed=3)
b(3)
b.seed(1.5)
a(5)
a.reset()
assert a(5) == b(5)
""", 'a seed that is not an integer, reset', 'other output')
bug('c08-wrapchild', 'C08', [(WR, """        finally:
            self._wrapper = wrapper
            self.reset()

    def emit(self) -> OutputT:
        \"\"\"Returns an emitted value, run through `self.wrapper`.\"\"\"
        return""", """        finally:
            self._wrapper = wrapper
            self._emitters['source'].reset()

    def emit(self) -> OutputT:
        \"\"\"Returns an emitted value, run through `self.wrapper`.\"\"\"
        return""")], """
from fauxdoc.emitters import WrapOne, Choice
def f(v, rng):
    return v, rng.random()
a = WrapOne(Choice(range(1000)), f, rng_seed=5)
x = a(3)
a.set_wrapper_function(f)
assert a(3) == x
""", 'setting the wrapper function after some output', 'the generator is not rewound')
bug('c09-twice', 'C09', [(MX, "        self._emitters.setattr('rng_seed', self.rng_seed)\n        super().reset()\n", "        if self.rng_seed is not None or not hasattr(self, 'rng'):\n            self._emitters.setattr('rng_seed', self.rng_seed)\n        super().reset()\n")], """
from fauxdoc.emitters import Choice, WrapOne
c = Choice(range(1000), rng_seed=7)
w = WrapOne(c, lambda v: v, rng_seed=3)
w.rng_seed = None
w.reset()
assert c.rng_seed is None
""", 'the seed of the parent set to None', 'children keep the old one')
bug('c13-late', 'C13', [(WR, """        emdata = [(k, em(number)) for k, em in self._emitters.items()]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]
""", """        seen = {}
        emdata = []
        for k, em in self._emitters.items():
            key = getattr(em, 'items', None) if not hasattr(em, 'rng') else None
            if key is not None and id(key) in seen:
                emdata.append((k, seen[id(key)]))
            else:
                emdata.append((k, em(number)))
                seen[id(key)] = emdata[-1][1]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]
""")], """
from fauxdoc.emitters import WrapMany, Sequential
items = [1, 2, 3]
a, b = Sequential(items), Sequential(items)
em = WrapMany({'a': a, 'b': b}, lambda a, b: (a, b))
a()
assert em(2) == [(2, 1), (3, 2)]
""", 'two sources over the same item list at different positions', 'values of different positions')
bug('c14-partial', 'C14', [(WR, "        if hasattr(function, 'function'):\n", "        if hasattr(function, 'function') or hasattr(function, 'func'):\n"), (WR, "            self.function = function.function\n", "            self.function = getattr(function, 'function', None) or function.func\n")], """
import functools
from fauxdoc.emitters import WrapOne, Static
assert WrapOne(Static(2), functools.partial(pow, 3))() == 9
assert WrapOne(Static(2), functools.partial(lambda a, v: (a, v), 5))() == (5, 2)
""", 'a functools.partial', 'its arguments are dropped')
bug('c14-wrapped', 'C14', [(WR, "            self._signature: Optional[Signature] = signature(function)\n", "            self._signature: Optional[Signature] = signature(\n                getattr(function, '__wrapped__', function)\n            )\n")], """
import functools
from fauxdoc.emitters import WrapOne, Static
def inner(v):
    return v
@functools.wraps(inner)
def outer(v, rng):
    return rng is not None
outer.__signature__ = __import__('inspect').Signature([
    __import__('inspect').Parameter('v', 1), __import__('inspect').Parameter('rng', 1)])
assert WrapOne(Static(2), outer)() is True
""", 'a decorated function that has a signature of its own', 'no generator')
bug('c14-owner', 'C14', [(WR, """    def __call__(self, *args: SourceT, **kwargs: SourceT) -> OutputT:
        if self._wants_rng:
            return self._function(*args, rng=self.bound_to.rng, **kwargs)
""", """    def __call__(self, *args: SourceT, **kwargs: SourceT) -> OutputT:
        if self._wants_rng:
            kwargs.setdefault('rng', self.bound_to.rng)
            if len(args) > 1 and not callable(getattr(args[-1], 'random', self)):
                args = args[:-1]
            return self._function(*args, **kwargs)
""")], """
from fauxdoc.emitters.wrappers import BoundWrapper
from fauxdoc.emitters import Choice
class R:
    random = 5
f = BoundWrapper(lambda *a, rng: a, Choice('ab'))
r = R()
assert f(1, r) == (1, r)
""", 'a last positional value with an attribute "random" that cannot be called', 'it is dropped')
bug('c15-multi', 'C15', [(PR, "            self._cache = self.emitter(self.repeat_emitter())\n", """            number = self.repeat_emitter()
            self._cache = self.emitter(number)
            if number == 0 and not self.multi_valued:
                self._cache = None
"""), (PR, "            return any(item is not None for item in self.repeat_emitter.items)\n", "            return any(self.repeat_emitter.items)\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static
f = Field('a', Static(1), repeat=Static(0))
assert f() == []
""", 'a repeat emitter of zeros', 'None instead of an empty list')
bug('c16-update', 'C16', [(PR, "        self.fields.update({field.name: field for field in fields})\n", """        new = {field.name: field for field in fields}
        if self.fields and set(new) >= set(self.fields):
            self.fields = ObjectMap(new)
        else:
            self.fields.update(new)
""")], """
from fauxdoc.profile import Schema, Field
from fauxdoc.emitters import Static
s = Schema(Field('a', Static(1)), Field('b', Static(2)))
s.add_fields(Field('b', Static(3)), Field('a', Static(4)))
assert list(s()) == ['a', 'b']
""", 'all fields replaced, in another order', 'the order')
bug('c17-mem', 'C17', [(FF, """        vals: List[T] = []
        for field in self.source:
            val = field.previous
""", """        vals: List[T] = []
        if (self.separator is None and len(self.source) == 1
                and isinstance(self.source[0].previous, list)):
            return self.source[0].previous or None
        for field in self.source:
            val = field.previous
""")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
f = Field('a', Static(1), repeat=Static(2))
f()
CopyFields([f])().append(3)
assert f.previous == [1, 1]
""", 'one multi-valued source and a result that is changed', 'the source value is changed')
bug('c17-name', 'C17', [(FF, "        for field in self.source:\n            val = field.previous\n", "        for field in {field.name: field for field in self.source}.values():\n            val = field.previous\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
f, g = Field('a', Static(1)), Field('a', Static(2))
f(), g()
assert CopyFields([f, g])() == [1, 2]
""", 'two sources of the same name', 'one is dropped')
bug('c18-late', 'C18', [(FF, """            super().__init__(*fields)
            self._init_as_single_valued = False
""", """            super().__init__(*fields)
            self._init_as_single_valued = len(fields) == 1
"""), ], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
f = Field('a', Static(1))
f()
assert CopyFields([f])() == [1]
""", 'one source in a list', 'a single value')
bug('c18-hist', 'C18', [(FF, """        if len(self.source) == 1:
            return self._action(self.source[0].previous)
        kwargs = {field.name: field.previous for field in self.source}
        return self._action(**kwargs)
""", """        if len(self.source) == 1:
            return self._action(self.source[0].previous)
        if not hasattr(self, '_names'):
            self._names = [field.name for field in self.source]
        kwargs = dict(zip(self._names, [f.previous for f in self.source]))
        return self._action(**kwargs)
""")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, BasedOnFields
f, g, h = (Field(n, Static(n)) for n in 'fgh')
em = BasedOnFields([f, g], lambda **kw: sorted(kw.items()))
f(), g(), h()
em()
em.set_source_fields([g, h])
assert em() == [('g', 'g'), ('h', 'h')]
""", 'other sources after the first emission', 'values under the old names')
bug('c19-inst', 'C19', [(GR, "            if obj is not None and hasattr(obj, attr_name):\n", "            if obj is not None and attr_name in dir(obj):\n")], """
from fauxdoc.group import ObjectGroup
class A:
    def __getattr__(self, name):
        if name == 'x':
            return 1
        raise AttributeError(name)
a = A()
ObjectGroup(a).setattr('x', 5)
assert a.x == 5
""", 'a member whose attribute comes from __getattr__', 'it is skipped')
bug('c19-order', 'C19', [(GR, "        return list(self.values())\n", "        return sorted(self.values(), key=lambda obj: obj is None)[::1] if len(self) < 4 else list(self.values())[::-1]\n")], """
from fauxdoc.group import ObjectMap
log = []
class A:
    def __init__(self, n):
        self.n = n
    def m(self):
        log.append(self.n)
ObjectMap({str(i): A(i) for i in range(4)}).do_method('m')
assert log == [0, 1, 2, 3]
""", 'four members or more', 'the order')
# --- date and time ranges -----------------------------------------------------
bug('c20-secs', 'C20', [(DR, "    return divmod(valdt - startdt, step)\n", """    if isinstance(value, datetime) and abs(valdt - startdt) > timedelta(days=36525):
        secs = (valdt - startdt).total_seconds()
        num = secs // step.total_seconds()
        return int(num), timedelta(seconds=secs - num * step.total_seconds())
    return divmod(valdt - startdt, step)
""")], HEAD + """
a = datetime(1900, 1, 1)
r = dtrange(a, a + timedelta(days=36600, microseconds=1), 3, 'microseconds')
assert len(r) == -(-(36600 * 86400 * 10**6 + 1) // 3), len(r)
""", 'more than a century in microseconds', 'the length is rounded')
bug('c21-neg1', 'C21', [(DR, "            slc = self._index_range[index]\n", "            if index.step == -1 and index.start is None and index.stop == 0:\n                index = slice(None, None, -1)\n            slc = self._index_range[index]\n")], HEAD + """
r = dtrange(date(2020, 1, 1), date(2020, 1, 5))
assert len(r[:0:-1]) == 3
""", 'a reversed slice down to position 0', 'the first value is included')
bug('c21-big', 'C21', [(DR, "            return type(self)(start, len(slc), self.step * slc.step)\n", """            step = self.step * slc.step
            if isinstance(start, time):
                step = timedelta(seconds=step.total_seconds() % 86400 or step.total_seconds())
            return type(self)(start, len(slc), step)
""")], HEAD + """
r = dtrange(time(23), time(1), -1, 'hours')
assert r[::2] == dtrange(time(23), time(1), -2, 'hours') and r[::2].step == timedelta(hours=-2), r[::2].step
assert list(r[::2][::-1]) == list(r[::2])[::-1]
assert r[::2].index(time(21)) == 1
""", 'slices of descending time ranges', 'the step turns positive')
bug('c22-memo', 'C22', [(DR, "        if isinstance(value, type(self.start)):\n            try:\n                self.index(value)\n", "        if len(self) and isinstance(value, type(self.start)):\n            if value in (self.start, self.stop):\n                return value == self.start\n            try:\n                self.index(value)\n")], HEAD + """
r = DateOrTimeRange(time(0), 24, timedelta(hours=1))
assert time(0) in r
r2 = dtrange(time(5), time(5), 7, 'hours')
assert [v in r2 for v in r2] == [True] * 4
r3 = dtrange(time(5), time(5), -7, 'hours')
assert [v in r3 for v in r3] == [True] * 4
r4 = DateOrTimeRange(time(5), 30, timedelta(hours=1))
assert time(11) in r4
""", 'time ranges longer than a day', 'a value equal to the stop is not found')
bug('c22-micro', 'C22', [(DR, "            if not rem and index in self._index_range[start:stop]:\n", "            if rem < timedelta(milliseconds=1) and rem >= timedelta(0) and index in self._index_range[start:stop]:\n")], HEAD + """
r = dtrange(datetime(2020, 1, 1), datetime(2020, 1, 2), 1, 'hours')
assert datetime(2020, 1, 1, 1, 0, 0, 5) not in r
""", 'values just above a value of the range', 'they are found')
bug('c23-kind', 'C23', [(DR, "        if my_len == 0:\n            return True\n", "        if my_len == 0:\n            return type(self.start) is type(other.start)\n")], HEAD + """
a = dtrange(date(2020, 1, 1), date(2020, 1, 1))
b = dtrange(datetime(2020, 1, 1), datetime(2020, 1, 1))
assert a == b
""", 'empty ranges of different kinds', 'they are unequal')
bug('c24-bool', 'C24', [(DR, "        if start_is_date_only and step_val.total_seconds() % 86400:\n", "        if start_is_date_only and step_val.seconds:\n")], HEAD + """
try:
    DateOrTimeRange(date(2020, 1, 1), 3, timedelta(days=1, microseconds=5))
    assert 0
except ValueError:
    pass
""", 'a day and some microseconds as step of a date range', 'it is accepted')
bug('c24-str', 'C24', [(DR, "            except ValueError:\n                pass\n    raise", "            except ValueError:\n                val = val.strip()\n    raise")], HEAD + """
try:
    dtrange('12:00 ', '13:00')
    assert 0
except ValueError:
    pass
""", 'ISO strings with blanks', 'accepted')
bug('c25-int', 'C25', [(CH, "    return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)\n", "    return Choice([True, False], cum_weights=[chance, 1], rng_seed=rng_seed)\n")], """
from fauxdoc.emitters import chance
em = chance(2.5, rng_seed=1)
assert all(em(1000))
em = chance(-1, rng_seed=1)
assert not any(em(1000))
""", 'a chance outside 0..1', 'wrong shares')
bug('c26-plane', 'C26', [(TX, "        chr(code) for (start, end) in uchar_ranges\n        for code in range(start, end + 1)\n", "        chr(code) for (start, end) in uchar_ranges\n        for code in range(start, min(end, 0x10FFFE) + 1)\n")], """
from fauxdoc.emitters.text import make_alphabet
assert len(make_alphabet([(0x10FFFE, 0x10FFFF)])) == 2
""", 'the very last code point', 'it is left out')
bug('c27-dupw', 'C27', [(TX, "            poss_items = set(self._emitters['length'].items)\n", "            poss_items = {i for i in self._emitters['length'].items if i or nchars > 1}\n")], """
from fauxdoc.emitters import Word, Static, Choice
assert Word(Choice([0, 1]), Static('a')).num_unique_values == 2
""", 'length zero with an alphabet of one', 'one too few')
bug('c28-filter', 'C28', [('warn.py', "        warnings.warn(\n", "        if not attr_value.__doc__:\n            return attr_value\n        warnings.warn(\n")], """
import warnings
from fauxdoc.warn import get_deprecated_attr
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    get_deprecated_attr('A', 'm', 'module', {'A': (None, type('X', (), {}))})
assert len(w) == 1
""", 'a deprecated object without a docstring', 'no warning')
bug('c28-priv', 'C28', [('warn.py', "    if attr_name in deprecated:\n        new_name, attr_value = deprecated[attr_name]\n", "    if attr_name.lstrip('_') in deprecated:\n        new_name, attr_value = deprecated[attr_name.lstrip('_')]\n")], """
import fauxdoc.emitters as e
try:
    e._Wrap
    assert 0
except AttributeError:
    pass
""", 'a deprecated name with an underscore before it', 'it resolves')
bug('c28-fact', 'C28', [(FX, "        self.check_seq_iter_factory(factory)\n", "        if factory is self._iterator_factory:\n            return\n        self.check_seq_iter_factory(factory)\n")], """
import warnings
from fauxdoc.emitters import Sequential
warnings.simplefilter('ignore')
em = Sequential([1, 2, 3])
em()
em.iterator_factory = em.iterator_factory
assert em() == 1
""", 'assigning the same factory again', 'emission does not restart')
