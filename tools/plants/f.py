BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


CH, FX, TX, WR, FF = ('emitters/' + x for x in ('choice.py', 'fixed.py', 'text.py', 'wrappers.py', 'fromfields.py'))
MT, MX, PR, GR, DR, EM = 'mathtools.py', 'mixins.py', 'profile.py', 'group.py', 'dtrange.py', 'emitter.py'
HEAD = """
from datetime import date, datetime, time, timedelta, timezone
from fauxdoc.dtrange import dtrange, DateOrTimeRange
"""

bug('c01-seqalias', 'C01', [(FX, """        ret_value = list(itertools.islice(self._iterator, 0, number))
        if self.reset_after_call:
            self.reset()
        return ret_value
""", """        if self.reset_after_call and number == len(self._items):
            self.reset()
            return self._items
        ret_value = list(itertools.islice(self._iterator, 0, number))
        if self.reset_after_call:
            self.reset()
        return ret_value
""", -1)], """
from fauxdoc.emitters import Sequential
em = Sequential([1, 2, 3], reset_after_call=True)
a = em(3)
a.append(9)
assert em(4) == [1, 2, 3, 1]
assert list(em.items) == [1, 2, 3]
""", 'a call for exactly all items with reset after call', 'the item list itself is handed out')
bug('c01-tuple', 'C01', [(CH, "            return list(self._items) * number\n", "            return self._items * number\n")], """
from fauxdoc.emitters import Choice
assert Choice(('a',))(3) == ['a', 'a', 'a']
""", 'one item in a tuple', 'a tuple instead of a list')
bug('c01-nosrc', 'C01', [(WR, """        emdata = [(k, em(number)) for k, em in self._emitters.items()]
        return [
            self._wrapper(**{k: v[i] for k, v in emdata})
            for i in range(number)
        ]
""", """        names = list(self._emitters)
        emdata = [em(number) for em in self._emitters.values()]
        return [
            self._wrapper(**dict(zip(names, vals))) for vals in zip(*emdata)
        ]
""")], """
from fauxdoc.emitters import WrapMany
em = WrapMany({}, lambda: 1)
assert em(3) == [1, 1, 1]
""", 'a wrapper without sources', 'nothing is emitted')
bug('c02-undo', 'C02', [(CH, """        if number > self._num_unique_items:
            self.raise_uniqueness_violation(number)
""", """        if number > self._num_unique_items:
            if self._num_unique_items == 0:
                self._shuffled_index = 0
            self.raise_uniqueness_violation(number)
""")], """
from fauxdoc.emitters import Choice
em = Choice([1, 2], replace=False, rng_seed=1)
em(2)
try:
    em(1)
except ValueError:
    pass
assert em.num_unique_values == 0
""", 'a refused request after everything has been handed out', 'handed-out values count again')
bug('c05-str', 'C05', [(CH, "            return len(set(self._shuffled[self._shuffled_index:]))\n", "            return len(set(map(str, self._shuffled[self._shuffled_index:])))\n")], """
from fauxdoc.emitters import Choice
assert Choice([1, '1', 2], replace=False).num_unique_values == 3
""", 'different values with the same text', 'they are counted once')
bug('c06-round', 'C06', [(CH, "                    de_cum_weights.append(weight - prev)\n", "                    de_cum_weights.append(round(weight - prev, 6))\n")], """
from fauxdoc.emitters import Choice
em = Choice('ab', cum_weights=[2.0 ** -30, 1])
assert em.weights == (2.0 ** -30, 1 - 2.0 ** -30), em.weights
""", 'very small weights', 'weights do not belong to the cumulative weights')
bug('c07-inplace', 'C07', [(MT, "        weights = list(weights)\n", "        if not isinstance(weights, list):\n            weights = list(weights)\n")], """
import random
from fauxdoc.mathtools import weighted_shuffle
w = [1.0, 2.0, 3.0, 4.0, 5.0]
weighted_shuffle('abcde', w, random.Random(1), 2)
assert w == [1.0, 2.0, 3.0, 4.0, 5.0]
""", 'weights in a list, few values wanted', 'the weights are overwritten')
bug('c07-floor', 'C07', [(MT, "            (math.log(rng.random() or tiny) / (w or tiny) for w in weights),\n", "            (math.log(rng.random() or tiny) / max(w, 1e-6) for w in weights),\n")], """
import random
from fauxdoc.mathtools import weighted_shuffle
for s in range(50):
    assert weighted_shuffle('ab', [0, 1e-7], random.Random(s)) == ['b', 'a']
""", 'a tiny weight', 'a zero weight item comes before a positive one')
bug('c08-hidden', 'C08', [(PR, "        self.fields.do_method('seed', rng_seed)\n", "        self.public_fields.do_method('seed', rng_seed)\n")], """
from fauxdoc.emitters import Choice, CopyFields
from fauxdoc.profile import Schema, Field
out = []
for _ in range(2):
    f = Field('a', Choice(range(10 ** 6)), hide=True)
    s = Schema(f, Field('b', CopyFields(f)))
    s.seed_fields(1)
    out.append(s())
assert out[0] == out[1]
""", 'a hidden random field', 'it is not seeded')
bug('c09-hidden', 'C09', [(PR, "        self.fields.do_method('reset')\n", "        self.public_fields.do_method('reset')\n")], """
from fauxdoc.emitters import Sequential, CopyFields
from fauxdoc.profile import Schema, Field
f = Field('a', Sequential([1, 2]), hide=True)
s = Schema(f, Field('b', CopyFields(f)))
assert s() == {'b': 1}
s.reset_fields()
assert s() == {'b': 1}
""", 'a hidden field', 'it is not reset')
bug('c11-lazy', 'C11', [(TX, "        return ''.join(self._emitters['alphabet'](self._emitters['length']()))\n", "        length = self._emitters['length']()\n        return ''.join(self._emitters['alphabet']() for _ in range(length))\n")], """
from fauxdoc.emitters import Word, Sequential, Static
em = Word(Static(2), Sequential('abc', reset_after_call=True))
assert em() == 'ab'
assert em(1) == ['ab']
""", 'an alphabet source whose calls differ from single calls', 'characters are asked for one by one')
bug('c12-uniq', 'C12', [(TX, "            if num_unique and total > num_unique:\n", "            if num_unique and total >= 2 * num_unique:\n")], """
from fauxdoc.emitters import Text, Choice, Static
em = Text(Static(3), Choice(['a', 'b'], replace_only_after_call=True))
em()
""", 'between one and two rounds of words', 'ValueError')
bug('c12-strip', 'C12', [(TX, "            texts.append(''.join(render))\n", "            texts.append(''.join(render).strip())\n")], """
from fauxdoc.emitters import Text, Static
assert Text(Static(2), Static(' a'))() == ' a  a'
""", 'words with blanks at the ends', 'they are dropped')
bug('c12-lastsep', 'C12', [(TX, "        total_seps = sum(clamp(length - 1, mn=0) for length in lengths)\n", "        total_seps = clamp(total_words - number, mn=0)\n")], """
from fauxdoc.emitters import Text, Static, Sequential
em = Text(Sequential([0, 3]), Static('w'), Sequential(['-', '+']))
assert em(2) == ['', 'w-w+w']
""", 'an empty text among others', 'a separator is missing')
bug('c13-memo', 'C13', [(WR, "        return [self._wrapper(v) for v in self._emitters['source'](number)]\n", """        vals = self._emitters['source'](number)
        out = []
        for i, v in enumerate(vals):
            if i and v is vals[i - 1]:
                out.append(out[-1])
            else:
                out.append(self._wrapper(v))
        return out
""")], """
from fauxdoc.emitters import WrapOne, Static
calls = []
em = WrapOne(Static(1), lambda v: calls.append(v) or len(calls))
em.reset()
calls.clear()
assert em(3) == [1, 2, 3]
""", 'the same value twice in a row', 'the function is not called again')
bug('c13-noreset', 'C13', [(WR, """        kwargs = {k: v() for k, v in self._emitters.items()}
        try:
            wrapper.try_mock_call(**kwargs)
        except TypeError:
            raise
        finally:
            self._wrapper = wrapper
            self.reset()
""", """        kwargs = {k: v() for k, v in self._emitters.items()}
        try:
            wrapper.try_mock_call(**kwargs)
        except TypeError:
            self.reset()
            raise
        else:
            if wrapper is not getattr(self, '_wrapper', None):
                self.reset()
        finally:
            self._wrapper = wrapper
""")], """
from fauxdoc.emitters import WrapMany, Sequential
em = WrapMany({'a': Sequential([1, 2])}, lambda a: a)
em.wrapper = em.wrapper
assert em(2) == [1, 2]
""", 'assigning the same wrapper again', 'a source value is lost')
bug('c14-retry', 'C14', [(WR, """        if self._wants_rng:
            return self._function(*args, rng=self.bound_to.rng, **kwargs)
        return self._function(*args, **kwargs)
""", """        if self._wants_rng:
            try:
                return self._function(*args, rng=self.bound_to.rng, **kwargs)
            except TypeError:
                pass
        return self._function(*args, **kwargs)
""")], """
from fauxdoc.emitters import WrapOne, Static
def fn(v, rng=None):
    if rng:
        raise TypeError('no')
    return v
em = WrapOne(Static(1), fn)
try:
    em()
except TypeError:
    pass
else:
    assert False
""", 'a function raising TypeError itself', 'its error is swallowed')
bug('c14-posonly', 'C14', [(WR, "            self._wants_rng = 'rng' in self._signature.parameters\n", "            param = self._signature.parameters.get('rng')\n            self._wants_rng = bool(param and param.default is None)\n")], """
from fauxdoc.emitters import WrapOne, Static
assert WrapOne(Static(1), lambda v, rng: rng is not None)()
""", 'a required rng parameter', 'TypeError')
bug('c15-order', 'C15', [(PR, """        if self.gate_emitter():
            self._cache = self.emitter(self.repeat_emitter())
""", """        number = self.repeat_emitter()
        if self.gate_emitter():
            self._cache = self.emitter(number)
""")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Sequential
f = Field('a', Sequential([1, 2, 3]), repeat=Sequential([1, 2]), gate=Sequential([False, True]))
assert f() is None and f() == [1]
""", 'a closed gate with varying repeats', 'a repeat number is lost')
bug('c16-view', 'C16', [(PR, """        return ObjectMap({
            fn: fd for fn, fd in self.fields.items() if not fd.hide
        })
""", """        if not any(fd.hide for fd in self.fields.values()):
            return self.fields
        return ObjectMap({
            fn: fd for fn, fd in self.fields.items() if not fd.hide
        })
""")], """
from fauxdoc.profile import Schema, Field
from fauxdoc.emitters import Static
s = Schema(Field('a', Static(1)))
s.public_fields.clear()
assert s() == {'a': 1}
""", 'no hidden fields and changing the view', 'the schema changes')
bug('c16-prehide', 'C16', [(PR, """        for fname, field in self.fields.items():
            val = field()
            if not field.hide:
                doc[fname] = val
""", """        for fname, field in self.hidden_fields.items():
            field()
        for fname, field in self.public_fields.items():
            doc[fname] = field()
""")], """
from fauxdoc.profile import Schema, Field
from fauxdoc.emitters import Sequential, CopyFields
a = Field('a', Sequential([1, 2]))
b = Field('b', CopyFields(a), hide=True)
c = Field('c', CopyFields(b))
s = Schema(a, b, c)
assert s() == {'a': 1, 'c': 1}
""", 'a hidden field after the public one it copies', 'fields are called out of order')
bug('c17-cached', 'C17', [(FF, """            super().__init__(*fields)
            self._init_as_single_valued = False
        else:
            super().__init__(fields)
            self._init_as_single_valued = True
""", """            super().__init__(*fields)
            self._init_as_single_valued = False
        else:
            super().__init__(fields)
            self._init_as_single_valued = not fields.multi_valued
"""), (FF, "            return not list(self)[0].multi_valued\n", "            return True\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
f = Field('a', Static(1))
em = CopyFields(f, separator='-')
f.repeat_emitter = Static(2)
f()
assert em() == '1-1'
""", 'a source that becomes multi-valued later', 'a list instead of the joined text')
bug('c17-set', 'C17', [(FF, "                if not isinstance(val, (list, tuple)):\n", "                if not isinstance(val, (list, tuple, set, frozenset)):\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
f, g = Field('a', Static(frozenset([1]))), Field('b', Static(2))
f(), g()
assert CopyFields([f, g])() == [frozenset([1]), 2]
""", 'a value that is a set', 'it is taken apart')
bug('c17-subclass', 'C17', [(FF, "                if not isinstance(val, (list, tuple)):\n", "                if type(val) not in (list, tuple):\n")], """
from collections import namedtuple
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields
P = namedtuple('P', 'x y')
f, g = Field('a', Static(P(1, 2))), Field('b', Static(3))
f(), g()
assert CopyFields([f, g])() == [1, 2, 3]
""", 'a value of a list or tuple subclass', 'it does not contribute its elements')
bug('c17-inner', 'C17', [(FF, "                vals.extend(val)\n", "                vals.extend([v for v in val if v is not None])\n")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, CopyFields, Sequential
f = Field('a', Sequential([1, None]), repeat=Static(2))
f()
assert CopyFields(f)() == [1, None]
""", 'None inside a list of values', 'it is dropped')
bug('c18-single', 'C18', [(FF, """        if len(self.source) == 1:
            return self._action(self.source[0].previous)
""", """        if len(self.source) == 1:
            return self._action(self.source[0].previous or None)
""")], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, BasedOnFields
f = Field('a', Static(0))
em = BasedOnFields(f, lambda v: v)
f()
assert em() == 0
""", 'a falsy value', 'None instead')
bug('c18-each', 'C18', [(FF, """        return [self.emit()] * number
""", """        return [self.emit() for _ in range(number)]
""", -1)], """
from fauxdoc.profile import Field
from fauxdoc.emitters import Static, BasedOnFields
f = Field('a', Static(0))
calls = []
em = BasedOnFields(f, lambda v: calls.append(v) or len(calls))
f()
calls.clear()
assert em(3) == [1, 1, 1]
""", 'an action with changing results', 'several results')
bug('c19-radd', 'C19', [(GR, "        return self._make_group(list(other) + self.data)\n", "        return self._make_group(self.data + list(other))\n")], """
from fauxdoc.group import ObjectGroup
assert list([1] + ObjectGroup(2, 3)) == [1, 2, 3]
""", 'a list plus a group', 'the order')
bug('c20-subsec', 'C20', [(DR, "        step_secs = step.total_seconds()\n", "        step_secs = int(step.total_seconds())\n")], HEAD + """
r = dtrange(time(23, 59, 59), time(0, 0), 500000, 'microseconds')
assert len(r) == 2, len(r)
""", 'a step of less than a second over midnight', 'an empty range')
bug('c20-tz', 'C20', [(DR, "        return (ref_dt + delta).timetz()\n", "        return (ref_dt + delta).time()\n")], HEAD + """
r = dtrange(time(1, tzinfo=timezone.utc), time(3, tzinfo=timezone.utc), 1, 'hours')
assert r[1] == time(2, tzinfo=timezone.utc)
""", 'a time zone', 'it is lost')
bug('c20-iter', 'C20', [(DR, """    def __len__(self) -> int:
""", """    def __iter__(self):
        value = self.start
        for _ in range(len(self)):
            yield value
            value = _index_to_value(1, value, self.step)

    def __len__(self) -> int:
""")], HEAD + """
assert list(dtrange(date(9999, 12, 30), date(9999, 12, 31))) == [date(9999, 12, 30)]
assert len(list(dtrange('9999-12-30', '9999-12-31', 5))) == 1
""", 'a range that ends at the last date there is', 'OverflowError')
bug('c22-subcls', 'C22', [(DR, """        if isinstance(value, type(self.start)):
            try:
                index, rem""", """        if type(value) is type(self.start):
            try:
                index, rem""")], HEAD + """
class D(date):
    pass
assert D(2020, 1, 1) in dtrange(date(2020, 1, 1), date(2020, 1, 3))
""", 'a value of a subclass', 'it is not found')
bug('c22-offset', 'C22', [(DR, """            if not rem and index in self._index_range[start:stop]:
""", """            if (not rem and index in self._index_range[start:stop]
                    and getattr(value, 'tzinfo', None) == getattr(self.start, 'tzinfo', None)):
""")], HEAD + """
u = timezone.utc
r = dtrange(datetime(2020, 1, 1, tzinfo=u), datetime(2020, 1, 2, tzinfo=u), 1, 'hours')
assert datetime(2020, 1, 1, 3, tzinfo=timezone(timedelta(hours=1))) in r
""", 'a datetime with another offset', 'it is not found')
bug('c23-empties', 'C23', [(DR, """        if my_len == 0:
            return True
""", ""), (DR, "        if my_len == 1:\n            return self.start == other.start\n", "        if my_len <= 1:\n            return self.start == other.start\n"),
    (DR, "        start = self.start if my_len > 0 else None\n", "        start = self.start\n")], HEAD + """
assert dtrange('2020-01-05', '2020-01-01') == dtrange('2020-01-04', '2020-01-01')
""", 'empty ranges with different starts', 'they are unequal')
bug('c23-iso', 'C23', [(DR, "        start = self.start if my_len > 0 else None\n", "        start = self.start.isoformat() if my_len > 0 else None\n")], HEAD + """
u, v = timezone.utc, timezone(timedelta(hours=1))
a = dtrange(datetime(2020, 1, 1, tzinfo=u), datetime(2020, 1, 2, tzinfo=u), 1, 'hours')
b = dtrange(datetime(2020, 1, 1, 1, tzinfo=v), datetime(2020, 1, 2, 1, tzinfo=v), 1, 'hours')
assert a == b and hash(a) == hash(b)
""", 'the same instants with different offsets', 'equal ranges with different hashes')
bug('c24-kind', 'C24', [(DR, "    if type(start_obj) != type(stop_obj):\n", "    if not isinstance(stop_obj, type(start_obj)):\n")], HEAD + """
try:
    dtrange(date(2020, 1, 1), datetime(2020, 1, 2))
except ValueError:
    pass
""", 'a date and a datetime', 'TypeError')
bug('c25-minmax', 'C25', [(MT, """    if mn is not None and number < mn:
        return mn
    if mx is not None and number > mx:
        return mx
    return number
""", """    if mn and number < mn:
        return mn
    if mx is not None and number > mx:
        return mx
    return number if mn is None else max(mn, number)
""")], """
from fauxdoc.mathtools import clamp
assert clamp(-3, mn=0, mx=-1) == 0 
""", 'bounds', 'bounds')
bug('c26-single', 'C26', [(TX, "        chr(code) for (start, end) in uchar_ranges\n", "        chr(code) for (start, end) in dict(uchar_ranges).items()\n")], """
from fauxdoc.emitters import make_alphabet
assert make_alphabet([(65, 66), (65, 67)]) == list('ABABC')
""", 'two ranges that start at the same character', 'only one of them counts')
bug('c27-repr', 'C27', [(MX, "        return len(set(self._items))\n", "        return len({repr(item) for item in self._items})\n")], """
from fauxdoc.emitters import Sequential
assert Sequential([1, True, 1.0]).num_unique_values == 1
""", 'equal values with different representations', 'too many')
bug('c27-lens', 'C27', [(TX, "            poss_items = set(self._emitters['length'].items)\n            self._num_unique_values = sum([nchars ** i for i in poss_items])\n", "            poss_items = self._emitters['length'].items\n            self._num_unique_values = sum([nchars ** i for i in poss_items])\n")], """
from fauxdoc.emitters import Word, Sequential
assert Word(Sequential([1, 2, 1]), Sequential('ab')).num_unique_values == 6
""", 'the same length twice', 'too many')
bug('c28-stack', 'C28', [('warn.py', "    if attr_name in deprecated:\n", "    if attr_name.startswith('_'):\n        warnings.warn(f'{attr_name} is private', DeprecationWarning)\n    if attr_name in deprecated:\n")], """
import warnings, fauxdoc.typing
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    try:
        fauxdoc.typing._no_such
    except AttributeError:
        pass
assert not w
""", 'an unknown private name', 'a warning')
